From 6e6a3d5b3284347a3dc891453f97ac0c48c5bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 01/45] fix: tree thresholds keep the source rule (less than or
 equal goes left)

The C code compares with less-than, so the threshold constant must be the smallest
value of the feature dtype above the source threshold. Truncating to integer, and
printing floats with six decimals, sent values at or near a split to the wrong side.
---
 emlearn/trees.py | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..dea190a 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -306,6 +306,28 @@ def encode_child(index, child):
     assert_valid_child(encoded)
     return encoded
 
+def split_bound(threshold, dtype):
+    """
+    The smallest value of @dtype which is larger than the threshold
+
+    The source model goes left on (value <= threshold), but the C code uses (value < bound).
+    Using this bound the two are equivalent, for all values representable in @dtype.
+    """
+    if 'int' in dtype:
+        return math.floor(threshold) + 1
+
+    with numpy.errstate(all='ignore'):
+        bound = numpy.float32(threshold)
+        if float(bound) <= threshold:
+            bound = numpy.nextafter(bound, numpy.float32(numpy.inf))
+    return float(bound)
+
+def split_constant(bound, dtype):
+    if dtype == 'float':
+        # enough digits to identify any single-precision number
+        return '{:.8e}f'.format(bound)
+    return cgen.constant(bound, dtype=dtype)
+
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
@@ -313,7 +335,15 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        value = split_bound(value, dtype)
+        if 'int' in dtype:
+            # nodes are stored with int16_t values
+            int16_min, int16_max = -2**15, (2**15)-1
+            if value > int16_max:
+                # no feature value is above the threshold
+                value, right = int16_max, left
+            value = max(value, int16_min)
+        value = split_constant(value, dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -371,13 +401,22 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
     def c_internal(n, depth):
+        bound = split_bound(n[1], dtype)
+        if dtype.endswith('int8_t') or dtype.endswith('int16_t'):
+            # avoid comparisons that always have the same outcome
+            limits = numpy.iinfo(dtype[:-2])
+            if bound > limits.max:
+                return c_node(n[2], depth)
+            if bound <= limits.min:
+                return c_node(n[3], depth)
+
         f = """{indent}if (features[{feature}] < {value}) {{
         {left}
         {indent}}} else {{
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'value': split_constant(bound, dtype),
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From abc93639698003bd8a7bddeb4bd5e08fff6a1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 02/45] fix: CSV export of trees that consist of a single leaf

The dummy decision node has an integer threshold, which has no round() method.
---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index dea190a..73c858c 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -939,7 +939,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{round(float(value), 6)},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From 269ee729a7c01f4f336545fb04fe4fb26c68fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 03/45] fix: inline tree regressors keep the precision of small
 leaf values

Six decimals turned values around 1e-6 and below into zero.
---
 emlearn/trees.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 73c858c..fdf1eb5 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -322,10 +322,13 @@ def split_bound(threshold, dtype):
             bound = numpy.nextafter(bound, numpy.float32(numpy.inf))
     return float(bound)
 
+def float_constant(value):
+    """Literal with enough digits to identify any single-precision number"""
+    return '{:.8e}f'.format(value)
+
 def split_constant(bound, dtype):
     if dtype == 'float':
-        # enough digits to identify any single-precision number
-        return '{:.8e}f'.format(bound)
+        return float_constant(bound)
     return cgen.constant(bound, dtype=dtype)
 
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
@@ -398,7 +401,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
             modifiers=weight_modifiers, dtype=leaves_dtype, values=leaves_array)
 
     def c_leaf(data, depth):
-        value = cgen.constant(data, dtype=leaf_dtype)
+        if leaf_dtype == 'float':
+            value = float_constant(data)
+        else:
+            value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
     def c_internal(n, depth):
         bound = split_bound(n[1], dtype)
-- 
2.43.0


From efca7ac0b986ff6024b84b323ca26caa272d2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 04/45] fix: nearest neighbours distance for large differences

The sum of squares overflowed 32 bits, and the integer square root did not terminate
for sums of 2^30 and more.
---
 emlearn/eml_neighbors.h | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..3c9c6c1 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,37 +26,34 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+uint32_t eml_isqrt(uint64_t x)
 {
-    int32_t q = 1, r = 0;
+    uint64_t q = 1, r = 0;
     while (q <= x) {
         q <<= 2;
     }
     while (q > 1) {
-        int32_t t;
         q >>= 2;
-        t = x - r - q;
+        const uint64_t t = r + q;
         r >>= 1;
-        if (t >= 0) {
-            x = t;
+        if (x >= t) {
+            x -= t;
             r += q;
         }
     }
-    return r;
+    return (uint32_t)r;
 }
 
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    // NOTE: the square of a difference between two int16 needs 32 bits, their sum more
+    uint64_t sum = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int64_t diff = (int32_t)a[i] - b[i];
+        sum += (uint64_t)(diff * diff);
     }
-    ret = eml_isqrt(ret); 
-    return ret;
+    return eml_isqrt(sum);
 }
 
 /** @typedef EmlNeighborsDistanceItem
-- 
2.43.0


From 75572f1083e8df4b7a72911c1d9dfe02f30fa541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 05/45] fix: array row operations check element size and
 extreme positions

Copying rows between arrays with different element sizes read beyond the source,
and the range checks overflowed for positions near the limits of int.
---
 emlearn/eml_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..0160a90 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -159,7 +159,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
+    EML_PRECONDITION(shift >= -rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
     const size_t row_size = self->value_size * self->dims[0];
@@ -202,11 +202,13 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same type of elements
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= (self->dims[1] - other->dims[1]), EmlSizeMismatch);
 
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From 982dca5603b52a43b009b3e44330a3e191311ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 06/45] fix: CSV writer and reader report failures and keep
 their position

Write failures and short writes were ignored, a row rejected for a too wide value
left part of it in the stream, read failures and lines longer than the buffer were
taken as data or end of data, and a row could be lost after an error.
---
 emlearn/eml_csv.h | 70 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..61d7b9c 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -49,6 +49,18 @@ typedef struct _EmlCsvWriter {
 
 
 // Writer
+
+// Write everything, or report an error
+static EmlError
+eml_csv_writer_write(EmlCsvWriter *self, const char *buffer, int length)
+{
+    if (length == 0) {
+        return EmlOk;
+    }
+    const int written = self->write(self->stream, (const uint8_t *)buffer, length);
+    return (written == length) ? EmlOk : EmlUnknownError;
+}
+
 EmlError
 eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_columns)
 {
@@ -63,14 +75,14 @@ eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_c
     for (int i=0; i<data_length; i++) {
         const char *name = columns[i];
         const int length = strlen(name);
-        self->write(self->stream, (uint8_t *)name, length);
+        EML_CHECK_ERROR(eml_csv_writer_write(self, name, length));
         const bool is_last = (i == data_length-1);
         if (!is_last) {
-            self->write(self->stream, (uint8_t *)delimiter, 1);
+            EML_CHECK_ERROR(eml_csv_writer_write(self, delimiter, 1));
         }
     }
 
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write(self, endline, 1));
 
     return EmlOk;
 }
@@ -84,19 +96,25 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
 
     char buf[EML_CSV_FLOAT_MAXSIZE] = {0,};
     const int max = EML_CSV_FLOAT_MAXSIZE;
+
+    // Check all values before writing any, so that a rejected row leaves nothing in the stream
     for (int i=0; i<data_length; i++) {
         int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
         if (written >= max) {
             return EmlUnsupported;
         }
+    }
+
+    for (int i=0; i<data_length; i++) {
+        int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
         const bool is_last = (i == data_length-1);
         if (!is_last) {
             buf[written] = (EML_CSV_DELIMITER)[0];
             written += 1;
         }
-        self->write(self->stream, (uint8_t *)buf, written);
+        EML_CHECK_ERROR(eml_csv_writer_write(self, buf, written));
     }
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write(self, endline, 1));
 
     return EmlOk;
 }
@@ -113,8 +131,16 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
+    const int read_length = \
         self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    if (read_length < 0) {
+        return EmlUnknownError;
+    }
+    if (read_length == 0) {
+        *out_columns = 0;
+        *out_offset = 0;
+        return EmlOk;
+    }
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
@@ -123,6 +149,7 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
     int column_idx = 0;
     int column_start_offset = 0;
     int offset = -1;
+    bool line_complete = false;
     for (offset=0; offset<read_length; offset++) {
 
         if (column_idx >= columns_length) {
@@ -148,10 +175,16 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
             // NULL terminate previous string
             buffer[offset] = '\0';
 
+            line_complete = true;
             break;
         }
     }
 
+    if (!line_complete) {
+        // line longer than the buffer, or not terminated
+        return EmlSizeMismatch;
+    }
+
     *out_columns = column_idx;
     *out_offset = offset;
 
@@ -167,9 +200,19 @@ eml_csv_reader_read_header(EmlCsvReader *self,
     int columns_read = 0;
     int characters_read = 0;
 
+    EML_PRECONDITION(buffer_length > 0, EmlSizeMismatch);
+
+    // The header is at the start. Also when a previous attempt failed
+    if (self->seek(self->stream, 0) != 0) {
+        return EmlUnknownError;
+    }
+
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     EML_CHECK_ERROR(read_err);
+    if (columns_read == 0) {
+        return EmlSizeMismatch;
+    }
 
     // Rembember number of columns
     self->n_columns = columns_read;
@@ -190,11 +233,18 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    if (columns_length < self->n_columns || buffer_length == 0) {
+        return -EmlSizeMismatch;
+    }
 
     int columns_read = 0;
     int characters_read = 0;
 
+    // Always start from the current line. Also when a previous attempt failed
+    if (self->seek(self->stream, self->stream_location) != 0) {
+        return -EmlUnknownError;
+    }
+
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     if (read_err) {
@@ -213,12 +263,8 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         return -EmlUnknownError;
     }
 
-    // Seek to start of next line
+    // Next line
     self->stream_location += characters_read+1;
-    const int seek_status = self->seek(self->stream, self->stream_location);
-    if (seek_status != 0) {
-        return -EmlUnknownError;
-    }
 
     return columns_read;
 }
-- 
2.43.0


From 41d2efd158f707d76a6c4818bad6e9952fca4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 07/45] fix: Quantizer saturates 32/64 bit and small float
 targets, maximum maps to output maximum

float32 data wrapped around (or raised) for int32 targets, the scale of float16 targets
overflowed for small maximums, tiny values raised underflow errors, and rounding of
the scale kept the largest value from reaching the output maximum.
---
 emlearn/preprocessing/quantizer.py | 42 +++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 310a619..ddb7a95 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -27,20 +27,28 @@ class Quantizer(BaseEstimator, TransformerMixin):
         self.dtype = numpy.dtype(dtype)
         self.out_max = out_max
 
-    def _get_out_max(self):
-        if self.out_max is not None:
-            return self.out_max
-
+    def _get_limits(self):
+        """Returns (min, max) of the output"""
         info = None
         try:
             info = numpy.iinfo(self.dtype)
+            convert = int
         except ValueError:
             info = numpy.finfo(self.dtype)
+            convert = float
         if info is None:
             raise ValueError(f"Unsupported dtype {self.dtype}")
 
-        out_max = info.max
-        return out_max
+        # Python numbers, as scalars of the target type could overflow
+        type_min, type_max = convert(info.min), convert(info.max)
+        out_max = type_max if self.out_max is None else self.out_max
+        if out_max > type_max:
+            raise ValueError(f"out_max {out_max} does not fit dtype {self.dtype}")
+
+        return max(-out_max, type_min), out_max
+
+    def _get_out_max(self):
+        return self._get_limits()[1]
 
     def fit(self, X, y=None):
         # TODO: normalize and check X,y using sklearn helpers
@@ -61,20 +69,28 @@ class Quantizer(BaseEstimator, TransformerMixin):
         else:
             largest = self.max_value            
     
+        largest = float(largest)
         self.scale_ = out_max / largest
+        if largest * self.scale_ < out_max:
+            # rounding must not keep the largest value from reaching the output maximum
+            self.scale_ = float(numpy.nextafter(self.scale_, numpy.inf))
         return self
 
     def transform(self, X, y=None):
 
-        # scale
-        out = X * self.scale_
+        out_min, out_max = self._get_limits()
 
-        # clip out-of-range values
-        out_max = self._get_out_max()
-        out = numpy.clip(out, -out_max, out_max)
+        with numpy.errstate(over='ignore', under='ignore'):
+            # scale
+            scaled = numpy.asarray(X).astype(float) * self.scale_
 
-        # quantize / convert dtype
-        out = out.astype(self.dtype)
+            # quantize / convert dtype, and clip out-of-range values
+            # The limits of large integer types have no exact float representation
+            high = scaled >= out_max
+            low = scaled <= out_min
+            out = numpy.where(high | low, 0, scaled).astype(self.dtype)
+            out[high] = out_max
+            out[low] = out_min
 
         # check post-conditions
         assert out.shape == X.shape
-- 
2.43.0


From bd140fb27ae72812f7217ddb4ad962351dc2c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 08/45] fix: Pareto front does not overwrite a score column of
 the table

---
 emlearn/evaluate/pareto.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index d85033f..be0671f 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -40,22 +40,21 @@ def find_pareto_front(df,
     :returns: The rows that make up the Pareto front
     """
 
-    # prevnt mutating input    
+    # prevent mutating input
     df = df.copy()
 
-    # flip to negative-is-better
-    if higher_is_better:
-        df['mean_test_score'] = -df[performance_metric]
-    else:
-        df['mean_test_score'] = df[performance_metric]
+    # flip to negative-is-better. Not stored in the table, where the name could be in use
+    performance = df[performance_metric].values.astype(float)
+    score = -performance if higher_is_better else performance
 
-    pp = is_pareto_efficient_simple(df[['mean_test_score', cost_metric]].values)
+    costs = numpy.column_stack([score, df[cost_metric].values.astype(float)])
+    pp = is_pareto_efficient_simple(costs)
     
     if min_performance is not None:
         if higher_is_better:
-            pp = (pp & (df[performance_metric] >= min_performance))
+            pp = (pp & (performance >= min_performance))
         else:
-            pp = (pp & (df[performance_metric] <= min_performance))
+            pp = (pp & (performance <= min_performance))
     
     return df[pp]
 
-- 
2.43.0


From e7a1d134466cb9c02a305d1f1d3fcbbe7fdd5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 09/45] fix: size listings with dashes in section names

---
 emlearn/evaluate/size.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index 94bb593..da74c42 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -53,8 +53,9 @@ def parse_binutils_size_a_output(stdout : str) -> Dict[str, int]:
     assert 'size' in header_line, header_line
 
     # extract section names and sizes
-    number_field_regex = r"([\w.]+)\s+(\d+)" 
-    matches = re.finditer(number_field_regex, stdout, re.MULTILINE)
+    # the name can contain any printable characters, like in .note.gnu.build-id
+    number_field_regex = r"^[ \t]*(\S+)[ \t]+(\d+)"
+    matches = re.finditer(number_field_regex, '\n'.join(lines[2:]), re.MULTILINE)
     out = {}
     for m in matches:
         field, value = m.groups()
-- 
2.43.0


From ab720d791cfebd5426d16e4beb3d11c7345ea99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 10/45] fix: Arduino install from directories with glob
 characters in their path

---
 emlearn/arduino/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 12b3a7d..d78eab1 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -29,7 +29,8 @@ def install_arduino_library(emlearn_include_dir, arduino_library_dir, update=Fal
     ensure_dir_single(library_dir)
 
     def in_library(pattern):
-        return os.path.join(emlearn_include_dir, pattern)
+        # the directory is not part of the pattern
+        return os.path.join(glob.escape(str(emlearn_include_dir)), pattern)
 
     patterns = [
         in_library('eml_*.h'), # must have
-- 
2.43.0


From 6fd5386c9bdfee2e13f29f108885086f60226d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 11/45] fix: tree metrics of converted models are those of the
 source trees

---
 emlearn/evaluate/trees.py | 4 +++-
 emlearn/trees.py          | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/trees.py b/emlearn/evaluate/trees.py
index 29d1c95..4a082c3 100644
--- a/emlearn/evaluate/trees.py
+++ b/emlearn/evaluate/trees.py
@@ -15,7 +15,9 @@ def get_tree_estimators(estimator):
     """
     Get the DecisionTree instances from ensembles or single-tree models
     """
-    if hasattr(estimator, 'estimators_'):
+    if isinstance(estimator, TreesWrapper):
+        trees = estimator.estimators_
+    elif hasattr(estimator, 'estimators_'):
         trees = [ e for e in estimator.estimators_]
     else:
         trees = [ estimator ]
diff --git a/emlearn/trees.py b/emlearn/trees.py
index fdf1eb5..414cd98 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -762,6 +762,7 @@ class Wrapper:
         else:
             estimators = [ estimator ]
 
+        self.estimators_ = estimators
         trees = [ e.tree_ for e in estimators ]
 
         self.forest_ = flatten_forest(trees, leaf=leaf, leaf_bits=self.leaf_bits)
-- 
2.43.0


From f8952f6e2fc9bcb99f067add42a499f44d702b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 12/45] fix: size in bytes of soft voting leaves includes all
 classes

---
 emlearn/evaluate/trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/evaluate/trees.py b/emlearn/evaluate/trees.py
index 4a082c3..ab79dd6 100644
--- a/emlearn/evaluate/trees.py
+++ b/emlearn/evaluate/trees.py
@@ -63,6 +63,9 @@ def model_size_bytes(model, a=None, b=None, node_size=None, leaf_size=None):
 
     if leaf_size is None:
         leaf_size = math.ceil(em.leaf_bits/8)
+        if em.is_classifier and em.leaf_bits > 0:
+            # soft voting, each leaf has the proportion of every class
+            leaf_size = leaf_size * em.n_classes
 
     nodes = model_size_nodes(em)
     leaves = model_size_leaves(em)
-- 
2.43.0


From 5b356847658466cf4f4401447b4ff9b86be411ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 13/45] fix: iirfilter rejects coefficient tables without six
 columns, preconditions raise exceptions Python can catch

---
 bindings/eml_signal.cpp   | 1 +
 bindings/emlpy_common.hpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..f37ef43 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -21,6 +21,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS coefficients must have 6 values per section");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
 
     const int n_stages = (int)sos.shape(0);
diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..cd76075 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From 984905c03c6018027331ef11944eff51269280a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 14/45] fix: sparse filter banks keep interior zeros and empty
 filters, fractional frequency limits

---
 emlearn/signal.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..ad44cbd 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -16,10 +16,16 @@ def sparse_filterbank(mels):
     for mel_idx in range(mels.shape[0]):
         mel = mels[mel_idx]
         nonzero = numpy.nonzero(mel)[0]
+        if len(nonzero) == 0:
+            # filter without coefficients
+            starts.append(0)
+            ends.append(-1)
+            continue
         first, last = nonzero[0], nonzero[-1]
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        # one coefficient for each position, also those that are zero
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
@@ -29,6 +35,10 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
     assert len(starts) == len(ends)
     n_bands = len(starts)
 
+    def frequency_dtype(frequency):
+        # limits can have a fractional part, for example half of the samplerate
+        return 'int' if frequency == int(frequency) else 'float'
+
     arrays = [
         cgen.constant_declare(name+'_bands', val=n_bands),
         cgen.array_declare(name+'_starts', len(starts), dtype='int', values=starts),
@@ -50,11 +60,11 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
         ]
     if fmax is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmax', val=fmax),
+            cgen.constant_declare(name+'_fmax', val=fmax, dtype=frequency_dtype(fmax)),
         ]
     if fmin is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmin', val=fmin),
+            cgen.constant_declare(name+'_fmin', val=fmin, dtype=frequency_dtype(fmin)),
         ]
 
     out = '\n\n'.join(arrays)
-- 
2.43.0


From 3745e2c357a9caa6eda20b88c645f5e991a400c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 15/45] fix: generated float constants keep single precision,
 line wrapping does not split numbers

---
 emlearn/cgen.py                  | 10 +++++++++-
 emlearn/tools/mel_filterbank.py  |  3 ++-
 emlearn/tools/window_function.py |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..7b34a0f 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -7,6 +7,8 @@ C code generation utilities
 
 import re
 
+import numpy
+
 VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
@@ -47,7 +49,13 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        literal = "{:.6f}".format(val)
+        with numpy.errstate(all='ignore'):
+            exact = numpy.float32(literal) == numpy.float32(val)
+        if not exact:
+            # six decimals are not enough, use the digits that identify any single-precision number
+            literal = "{:.8e}".format(val)
+        return literal + 'f'
     elif 'int' in dtype:
         return "{:d}".format(int(val))
     else:
diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 25c0a80..3f4bd1d 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -25,7 +25,8 @@ def mel_filterbank(args, name):
     gen = emlearn.signal.sparse_filterbank_serialize(sparse, name=name, frequencies=frequencies,
             n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)
 
-    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False)
+    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False,
+                      break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index 679c1a7..a102f5d 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -46,7 +46,7 @@ def window_function(name, window_type, length, fft_mode, linewrap):
     ]
     gen = '\n'.join(arrays)
 
-    w = textwrap.wrap(gen, linewrap)
+    w = textwrap.wrap(gen, linewrap, break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
-- 
2.43.0


From 6f192cbca133a786d36ceb0f57bc876a1ca72e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 16/45] fix: networks: inline code compiles, two-output softmax
 order, softmax without cancellation, save() follows the conversion's method,
 fixed-point refused while it is a stub

---
 emlearn/eml_net.h |  9 +++++----
 emlearn/net.py    | 11 +++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..9f1b4a9 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -76,12 +76,12 @@ eml_net_softmax(float *input, size_t input_length)
 
     float sum = 0.0f;
     for (size_t i = 0; i < input_length; i++) {
-        sum += expf(input[i] - input_max);
+        input[i] = expf(input[i] - input_max);
+        sum += input[i];
     }
 
-    const float offset = input_max + logf(sum);
     for (size_t i = 0; i < input_length; i++) {
-        input[i] = expf(input[i] - offset);
+        input[i] /= sum;
     }
 
     return EmlOk;
@@ -303,7 +303,8 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
+        // binary, single output
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..75a4a9f 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -53,6 +53,9 @@ class Wrapper:
 
         if self.use_fixedpoint and self.inference_type != 'inline':
             raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
+        if self.use_fixedpoint:
+            # eml_net_forward_q16() does not do any computation yet
+            raise NotImplementedError("Fixed-point inference is not implemented yet")
 
         name = 'mynet'
         if self.inference_type == 'loadable' and return_type == 'classifier':
@@ -101,13 +104,17 @@ class Wrapper:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
 
-    def save(self, name=None, file=None, inference=['loadable']):
+    def save(self, name=None, file=None, inference=None):
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
+        if inference is None:
+            # the method that was specified when converting
+            inference = [ self.inference_type ]
+
         if ('loadable' in inference) and ('inline' in inference):
             raise ValueError("Specify either 'loadable' or 'inline' inference. Both together is not supported")
 
@@ -173,7 +180,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From a38542d29fa8d83db4174e72a962ae996b74bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 17/45] fix: naive Bayes: no 32 bit overflow for inputs far
 from a class, refuse models outside of 16.16 or with too many classes, check
 the number of values

---
 emlearn/bayes.py    |  8 ++++++++
 emlearn/eml_bayes.h | 33 +++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..8af2b90 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -11,6 +11,9 @@ from . import common, cgen
 
 import os.path
 
+# EML_MAX_CLASSES in eml_bayes.h
+MAX_CLASSES = 10
+
 def prob_ref(x, mean, std):
     exponent = (- ((x - mean)**2 / (2 * std**2)))
     sigma_max = 100
@@ -88,6 +91,8 @@ class Wrapper(object):
 
         # FIXME: use var,mean numpy arrays directly
         n_classes, n_features = estimator.theta_.shape
+        if n_classes > MAX_CLASSES:
+            raise ValueError("Only up to {} classes supported, got {}".format(MAX_CLASSES, n_classes))
         model = numpy.ndarray(shape=(n_classes, n_features, 3), dtype=float)
 
         if hasattr(estimator, 'var_'):
@@ -103,6 +108,9 @@ class Wrapper(object):
                 mean = estimator.theta_[class_n,feature_n]
                 std = numpy.sqrt(variance[class_n,feature_n])
                 std_log2 = numpy.log2(std)
+                if abs(mean) >= 2**15 or std >= 2**15 or std < 2**-16:
+                    raise ValueError("Feature {} of class {} has mean {} and standard deviation {}, which is outside of the range of 16.16 fixed-point" \
+                        .format(feature_n, class_n, mean, std))
                 model[class_n,feature_n] = (mean, std, std_log2)
         self.model = model
 
diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..9cb666d 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -71,28 +71,31 @@ int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 }
 
 // log2 of normpdf, implemented using quadratic function
-static eml_q16_t
+// Uses 64 bits, because the square of a large x does not fit in Q16.16
+static int64_t
 eml_bayes_logpdf_std(eml_q16_t x)
 {
     const eml_q16_t a = EML_Q16_FROMFLOAT(-0.7213475204444817);
     const eml_q16_t b = EML_Q16_FROMFLOAT(-1.0005845727355313e-15);
     const eml_q16_t c = EML_Q16_FROMFLOAT(-1.3257480647361592);
 
-    const eml_q16_t axx = eml_q16_mul(a, eml_q16_mul(x, x));
-    const eml_q16_t bx = eml_q16_mul(b, x);
-    const eml_q16_t y = axx + bx + c;
+    const int64_t wide = x;
+    const int64_t axx = eml_q16_mul(a, eml_q16_mul(wide, wide));
+    const int64_t bx = eml_q16_mul(b, wide);
+    const int64_t y = axx + bx + c;
     return y;
 }
 
 // log2 of normal probability density function PDF
 // using a scaled/translated standard distribution
-static eml_q16_t
+static int64_t
 eml_bayes_logpdf(eml_q16_t x, eml_q16_t mean, eml_q16_t std, eml_q16_t stdlog2)
 {
-   const eml_q16_t xm = eml_q16_div((x - mean), std);
-   const eml_q16_t xx = (xm > 0) ? xm : -xm;
-   const eml_q16_t p = eml_bayes_logpdf_std(xx) - stdlog2;
-   return p; 
+   // both the difference and the quotient can be outside of the range of Q16.16
+   const int64_t diff = (x > mean) ? ((int64_t)x - mean) : ((int64_t)mean - x);
+   const int64_t scaled = ((diff << EML_Q16_FRACT_BITS) + (std / 2)) / std;
+   const eml_q16_t xx = (scaled > INT32_MAX) ? INT32_MAX : (eml_q16_t)scaled;
+   return eml_bayes_logpdf_std(xx) - stdlog2;
 }
 
 /**
@@ -112,17 +115,19 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(model->n_classes <= EML_MAX_CLASSES, -EmlUnsupported);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
-   eml_q16_t class_probabilities[EML_MAX_CLASSES];
+   int64_t class_probabilities[EML_MAX_CLASSES];
 
    for (int class_idx = 0; class_idx<model->n_classes; class_idx++) {
 
-      eml_q16_t class_p = 0;
+      int64_t class_p = 0;
       for (int value_idx = 0; value_idx<values_length; value_idx++) {
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
          const eml_q16_t val = EML_Q16_FROMFLOAT(values[value_idx]);
-         const eml_q16_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
+         const int64_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
 
          class_p += plog;
       }
@@ -130,10 +135,10 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
       //printf("class %d : %f\n", class_idx, p);
    }
 
-   eml_q16_t highest_prob = class_probabilities[0];
+   int64_t highest_prob = class_probabilities[0];
    int32_t highest_idx = 0;
    for (int class_idx = 1; class_idx<model->n_classes; class_idx++) {
-      const eml_q16_t p = class_probabilities[class_idx]; 
+      const int64_t p = class_probabilities[class_idx]; 
       if (p > highest_prob) {
          highest_prob = p;
          highest_idx = class_idx;
-- 
2.43.0


From 0fc40b8e59df4a1bc68662b7e5d28aa105a2f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 18/45] fix: elliptic envelope wrapper: a point on the boundary
 is an inlier, as in the C code and the source

---
 emlearn/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..c52f011 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -125,7 +125,7 @@ class Wrapper:
         def predict_one(d):
             dist = -d
             dd = dist - self._offset
-            is_inlier = 1 if dd > 0 else -1
+            is_inlier = 1 if dd >= 0 else -1
             return is_inlier
 
         distances = self.mahalanobis(X)
-- 
2.43.0


From 87d3aa5113599a0e72d39bd276dc2101bb405d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 19/45] fix: descriptions of EmlUnsupported and
 EmlUninitialized were swapped

---
 emlearn/eml_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index a08c24d..c1021d4 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -31,8 +31,8 @@ static const char * const
 eml_error_strs[EmlErrors] = {
     "OK",
     "SizeMismatch",
-    "Uninitialized",
     "Unsupported",
+    "Uninitialized",
     "Postcondition failed",
     "Unknown error",
 };
-- 
2.43.0


From ec65b12da01349065f4e4ef2e3b928ef92912853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 20/45] fix: every converted model has its own program, later
 models do not replace it

---
 emlearn/common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..f1f0669 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -8,6 +8,7 @@ import os
 import sys
 import subprocess
 import platform
+import uuid
 from distutils.ccompiler import new_compiler
 
 import numpy
@@ -116,7 +117,8 @@ def build_classifier(cmodel, name, temp_dir,
     cc.link("executable", objects, output_filename=output_filename, 
         output_dir=temp_dir, libraries=libraries)  
 
-    return bin_path
+    # the working directory may be different when the program is used
+    return os.path.abspath(bin_path)
 
 def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
 
@@ -166,6 +168,10 @@ class CompiledClassifier():
 
         if include_dir == None:
             include_dir = get_include_dir()
+
+        # each model has its own directory. Otherwise a later model would replace the program of an earlier one
+        temp_dir = os.path.join(temp_dir, '{}_{}'.format(name, uuid.uuid4().hex))
+
         self.bin_path = build_classifier(cmodel, name,
                 include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
 
-- 
2.43.0


From 49b883dbbdeda736932c91e036e18ae214a4aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 21/45] fix: predictions raise an exception for rows that
 cannot be processed, rows can have many features, results keep their
 precision

---
 emlearn/bayes.py     |  2 +-
 emlearn/common.py    | 53 +++++++++++++++++++++++++++++++++++---------
 emlearn/distance.py  |  2 +-
 emlearn/eml_test.h   | 11 ++++++---
 emlearn/mixture.py   |  6 ++---
 emlearn/neighbors.py |  2 +-
 emlearn/net.py       |  7 +++---
 emlearn/trees.py     |  4 +---
 8 files changed, 61 insertions(+), 26 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 8af2b90..b0c233d 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -121,7 +121,7 @@ class Wrapper(object):
             name = 'mybayes'
             func = 'eml_bayes_predict(&{}_model, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif method == 'inline':
             raise NotImplementedError('NaiveBayes does not support inline C code generation')
         else:
diff --git a/emlearn/common.py b/emlearn/common.py
index f1f0669..cca1fb9 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -40,6 +40,7 @@ def build_classifier(cmodel, name, temp_dir,
         include_dir, func=None, test_function=None, n_classes=None,
         warn_flags=None,
         warn_error=True,
+        out_dtype='int',
         ):
     if not os.path.exists(temp_dir):
         os.makedirs(temp_dir)
@@ -54,6 +55,9 @@ def build_classifier(cmodel, name, temp_dir,
     # force re-compilation even if object files exist (required)
     cc = new_compiler(force=1)
 
+    # classifiers return negative numbers on errors
+    is_classifier = int(out_dtype == 'int')
+
     tree_name = name
     def_file_name = name+'.h'
     def_file = os.path.join(temp_dir, def_file_name)
@@ -75,6 +79,10 @@ def build_classifier(cmodel, name, temp_dir,
 
     if n_classes:
         code = """
+        // rows can have many values
+        #define EML_CSV_VALUES_LENGTH 65536
+        #define EML_CSV_BUFFER_LENGTH (64*EML_CSV_VALUES_LENGTH)
+
         #include "{def_file_name}"
         #include <eml_test.h>
 
@@ -82,27 +90,42 @@ def build_classifier(cmodel, name, temp_dir,
         float outputs[N_CLASSES] = {{0.0}};
 
         static void classify_proba(const float *values, int length, int row) {{
-            {func}; // TODO: handle error
+            const int err = (int){func};
+            if (err != 0) {{
+                fprintf(stderr, "Row %d failed with error %d\\n", row, err);
+                exit(EXIT_FAILURE);
+            }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.17g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
-            {test_function}(stdin, classify_proba);
+            const EmlError err = {test_function}(stdin, classify_proba);
+            return (err == EmlOk) ? EXIT_SUCCESS : EXIT_FAILURE;
         }}
         """.format(**locals())
     else:
         # Trivial program that reads values on stdin, and returns classifications on stdout
         code = """
+        // rows can have many values
+        #define EML_CSV_VALUES_LENGTH 65536
+        #define EML_CSV_BUFFER_LENGTH (64*EML_CSV_VALUES_LENGTH)
+
         #include "{def_file_name}"
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            const double out = (double){func};
+            if ({is_classifier} && out < 0.0) {{
+                fprintf(stderr, "Row %d failed with error %d\\n", row, (int)-out);
+                exit(EXIT_FAILURE);
+            }}
+            printf("%d,%.17g\\n", row, out);
         }}
         int main() {{
-            {test_function}(stdin, classify);
+            const EmlError err = {test_function}(stdin, classify);
+            return (err == EmlOk) ? EXIT_SUCCESS : EXIT_FAILURE;
         }}
         """.format(**locals())
 
@@ -164,7 +187,8 @@ class CompiledClassifier():
             test_function=None,
             out_dtype='int',
             proba_call=None,
-            n_classes=None):
+            n_classes=None,
+            n_features=None):
 
         if include_dir == None:
             include_dir = get_include_dir()
@@ -173,7 +197,8 @@ class CompiledClassifier():
         temp_dir = os.path.join(temp_dir, '{}_{}'.format(name, uuid.uuid4().hex))
 
         self.bin_path = build_classifier(cmodel, name,
-                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
+                include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function,
+                out_dtype=out_dtype)
 
         self.proba_bin_path = None
         if proba_call is not None:
@@ -184,16 +209,23 @@ class CompiledClassifier():
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
+        self.n_features = n_features
 
-    def predict(self, X):
+    def _check_data(self, X):
         X = check_array(X)
+        if self.n_features is not None and X.shape[1] != self.n_features:
+            raise ValueError('X has {} features, but the model expects {}'.format(X.shape[1], self.n_features))
+        return X
+
+    def predict(self, X):
+        X = self._check_data(X)
 
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
         assert len(out) == len(X), out
         return out
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = self._check_data(X)
 
         if self.proba_bin_path is None:
             raise ValueError('predict_proba() not supported')
@@ -203,6 +235,7 @@ class CompiledClassifier():
             return int(row), int(cls), float(prob)
 
         result = run_classifier(self.proba_bin_path, X, out_dtype=convert_out)
+        assert len(result) == len(X)*self.n_classes, (len(result), len(X), self.n_classes)
         out = numpy.empty(shape=(len(X), self.n_classes))
         for i, (row, cls, prob) in enumerate(result):
             out[row][cls] = prob
@@ -211,8 +244,6 @@ class CompiledClassifier():
         return out
 
     def regress(self, X):
-        X = check_array(X)
-
         return self.predict(X)
 
 
diff --git a/emlearn/distance.py b/emlearn/distance.py
index c52f011..6196a5c 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -105,7 +105,7 @@ class Wrapper:
             name = 'my_inline_elliptic'
             func = '{}_predict(values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', n_features=len(self._means))
         else:
             raise ValueError("Unsupported classifier method '{}'".format(classifier))
 
diff --git a/emlearn/eml_test.h b/emlearn/eml_test.h
index 856b431..2886a5b 100644
--- a/emlearn/eml_test.h
+++ b/emlearn/eml_test.h
@@ -13,7 +13,7 @@ extern "C" {
 #endif
 
 #ifndef EML_CSV_BUFFER_LENGTH
-#define EML_CSV_BUFFER_LENGTH 2*1024
+#define EML_CSV_BUFFER_LENGTH (2*1024)
 #endif
 #ifndef EML_CSV_VALUES_LENGTH
 #define EML_CSV_VALUES_LENGTH 256
@@ -56,12 +56,17 @@ eml_test_parse_csv_line(char *buffer, float *values, int32_t values_length,
 
 EmlError
 eml_test_read_csv(FILE *fp, EmlCsvCallback row_callback) {
-    char buffer[EML_CSV_BUFFER_LENGTH];
-    float values[EML_CSV_VALUES_LENGTH];
+    static char buffer[EML_CSV_BUFFER_LENGTH];
+    static float values[EML_CSV_VALUES_LENGTH];
     int row_no = 0;
 
     while(fgets(buffer, EML_CSV_BUFFER_LENGTH, fp))
     {
+        if (strlen(buffer) == EML_CSV_BUFFER_LENGTH-1 && strchr(buffer, '\n') == NULL && !feof(fp)) {
+            // did not get the complete row
+            return EmlSizeMismatch;
+        }
+
         int value_no = 0;
         const EmlError e = eml_test_parse_csv_line(buffer, values, EML_CSV_VALUES_LENGTH, &value_no);
         EML_CHECK_ERROR(e);
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index e892e2a..63a6c63 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -148,7 +148,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         if (out != EmlOk) {{
             return -out; // error
         }}
-        printf("%f", score);
+        printf("%.9g", score);
         """
     elif output_type == 'predict_log_proba':
         output_code = f"""
@@ -158,7 +158,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out; // error
         }}
         for (int i=0; i<n_components; i++) {{
-            printf("%.6f", output[i]);
+            printf("%.9g", output[i]);
             if (i != (n_components-1)) {{
                 printf(",");
             }}
@@ -173,7 +173,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out_resp; // error
         }}
         for (int i=0; i<n_components; i++) {{
-                printf("%.6f", resp[i]);
+                printf("%.9g", resp[i]);
                 if (i != (n_components-1)) {{
                     printf(",");
                 }}
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..fc66655 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -82,7 +82,7 @@ class Wrapper:
             func = 'predict_func(values, length)'
 
 
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         else:
             raise ValueError(f"Unsupported inference method '{inference}'")
 
diff --git a/emlearn/net.py b/emlearn/net.py
index 75a4a9f..f4e0e35 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -50,6 +50,7 @@ class Wrapper:
         n_outputs = self.weights[-1].shape[1]
         if n_outputs == 1:
             n_outputs = 2
+        n_features = self.weights[0].shape[0]
 
         if self.use_fixedpoint and self.inference_type != 'inline':
             raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
@@ -62,11 +63,11 @@ class Wrapper:
             func = 'eml_net_predict(&{}, values, length)'.format(name)
             code = self.save(name=name)
             proba_func = 'eml_net_predict_proba(&{}, values, length, outputs, {})'.format(name, n_outputs)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs, n_features=n_features)
         elif self.inference_type == 'loadable' and return_type == 'regressor':
             func = 'eml_net_regress1(&{}, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'classifier':
             code = self.save(name=name)
 
@@ -86,7 +87,7 @@ class Wrapper:
                 func = f'{name}_predict_float(values, length)'                
             else:
                 func = f'{name}_predict(values, length)'
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'regressor':
             raise NotImplementedError("Inline inference not supported for regressors, use loadable instead")
         else:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 414cd98..e3b09a5 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -811,9 +811,6 @@ class Wrapper:
                     features[i] = ({feature_dtype})values[i];
                 }}
                 const {return_type} out = {name}_predict(features, length);
-                if (out < 0) {{
-                    return -out;
-                }}
                 return out;
             }}""",
             f"""
@@ -869,6 +866,7 @@ class Wrapper:
         self.classifier_ = common.CompiledClassifier(code, name=name,
             call=call_func, proba_call=proba_func,
             out_dtype=self.out_dtype, n_classes=self.n_classes,
+            n_features=self.n_features,
         )
 
 
-- 
2.43.0


From 907879590b05a5b91539add4380983852fd772e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 22/45] fix: trees: compile the model once, not for every
 prediction

---
 emlearn/trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index e3b09a5..f7b676a 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -868,6 +868,7 @@ class Wrapper:
             out_dtype=self.out_dtype, n_classes=self.n_classes,
             n_features=self.n_features,
         )
+        self._classifier = self.classifier_
 
 
     def predict(self, X):
-- 
2.43.0


From 90f56259effa545b3c1d4fe45f872d1562b3c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 23/45] fix: models named like a parameter of their functions,
 names with a trailing newline, argument order of GaussianNB save()

---
 emlearn/bayes.py |  2 +-
 emlearn/cgen.py  | 12 +++++++++++-
 emlearn/net.py   | 15 +++++++++------
 emlearn/trees.py | 22 ++++++++++++----------
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index b0c233d..2d1e54a 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -131,7 +131,7 @@ class Wrapper(object):
     def predict(self, X):
         return self.classifier.predict(X)
 
-    def save(self, file=None, name=None):
+    def save(self, name=None, file=None):
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 7b34a0f..ea0c55a 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -9,7 +9,7 @@ import re
 
 import numpy
 
-VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
+VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*\Z' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
 from .fixedpoint import FixedPointFormat, from_float
@@ -148,6 +148,16 @@ def identifier_is_reserved(s):
     reserved = s in RESERVED_WORDS
     return reserved
 
+def unshadowed(local, name):
+    """
+    Name for a parameter in a function that refers to @name
+
+    >>> from emlearn import cgen
+    >>> cgen.unshadowed("features", name="features")
+    "features_"
+    """
+    return local + '_' if local == name else local
+
 def assert_valid_identifier(s):
     """
     Check whether a identifier is a valid in C
diff --git a/emlearn/net.py b/emlearn/net.py
index f4e0e35..6ee757e 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -305,28 +305,31 @@ def c_generate_net_loadable(activations, weights, biases, prefix):
     ]
 
     name = prefix
+
+    # the parameters must not hide the model
+    features, n_features, out, out_length = (cgen.unshadowed(p, name) for p in ('features', 'n_features', 'out', 'out_length'))
     
     predict_function = f"""
     int32_t
-    {name}_predict(const float *features, int32_t n_features)
+    {name}_predict(const float *{features}, int32_t {n_features})
     {{
-        return eml_net_predict(&{name}, features, n_features);
+        return eml_net_predict(&{name}, {features}, {n_features});
     }}
     """
 
     regress_function = f"""
     int32_t
-    {name}_regress(const float *features, int32_t n_features, float *out, int32_t out_length)
+    {name}_regress(const float *{features}, int32_t {n_features}, float *{out}, int32_t {out_length})
     {{
-        return eml_net_regress(&{name}, features, n_features, out, out_length);
+        return eml_net_regress(&{name}, {features}, {n_features}, {out}, {out_length});
     }}
     """
 
     regress1_function = f"""
     float
-    {name}_regress1(const float *features, int32_t n_features)
+    {name}_regress1(const float *{features}, int32_t {n_features})
     {{
-        return eml_net_regress1(&{name}, features, n_features);
+        return eml_net_regress1(&{name}, {features}, {n_features});
     }}
     """
 
diff --git a/emlearn/trees.py b/emlearn/trees.py
index f7b676a..670ee9e 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -666,42 +666,44 @@ def generate_c_loadable(forest, name, n_features,
     # Provide convenience wrapper functions, to not have to deal with the underlying structs etc
     ctype = dtype
 
-    forest_regressor_func = """float {function_name}(const {ctype} *features, int32_t features_length) {{
+    # the parameters must not hide the model
+    parameters = { p: cgen.unshadowed(p, name) for p in ('features', 'features_length', 'out', 'out_length') }
+
+    forest_regressor_func = """float {function_name}(const {ctype} *{features}, int32_t {features_length}) {{
 
-        const float out = eml_trees_regress1(&{model_name}, features, features_length);
-        return out;
+        return eml_trees_regress1(&{model_name}, {features}, {features_length});
     }}
     """.format(**{
       'model_name': name,
       'function_name': name+"_predict",
       'n_trees': len(roots),
       'ctype': ctype,
+      **parameters,
     })
 
-    forest_classifier_func = """int32_t {function_name}(const {ctype} *features, int32_t features_length) {{
+    forest_classifier_func = """int32_t {function_name}(const {ctype} *{features}, int32_t {features_length}) {{
 
-        const int out = eml_trees_predict(&{model_name}, features, features_length);
-        return out;
+        return eml_trees_predict(&{model_name}, {features}, {features_length});
 
     }}
     """.format(**{
       'model_name': name,
       'function_name': name+"_predict",
       'ctype': ctype,
+      **parameters,
     })
 
 
-    forest_proba_func = """int {function_name}(const {ctype} *features, int32_t features_length, float *out, int out_length) {{
+    forest_proba_func = """int {function_name}(const {ctype} *{features}, int32_t {features_length}, float *{out}, int {out_length}) {{
 
-        const EmlError err = \
-            eml_trees_predict_proba(&{model_name}, features, features_length, out, out_length);
-        return err;
+        return eml_trees_predict_proba(&{model_name}, {features}, {features_length}, {out}, {out_length});
 
     }}
     """.format(**{
       'model_name': name,
       'function_name': name+"_predict_proba",
       'ctype': ctype,
+      **parameters,
     })
 
     forest_funcs = [forest_classifier_func]
-- 
2.43.0


From 27ac09db17cafbdda27c1c886100c8ae5e276a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 24/45] fix: code generated for mixture models and elliptic
 envelopes compiles as C++

---
 emlearn/distance.py   | 3 ++-
 emlearn/eml_mixture.h | 4 ++--
 emlearn/mixture.py    | 8 ++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 6196a5c..9050af6 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -81,8 +81,9 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
     // Prediction function
     float {predict_function_name}(const float *features, int n_features) {{
         float dist = 0.0;
-        const int class = eml_elliptic_envelope_predict(&{classifier_name},
+        const int outlier = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
+        (void)outlier;
         return dist; 
     }}
     '''
diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..13031d9 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -270,7 +270,7 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_predict_log_proba(model, values, values_length, probabilities);
     if (status != EmlOk) {
         return status;
@@ -295,7 +295,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
     if (status != EmlOk) {
         return status;
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 63a6c63..878ff86 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -58,7 +58,7 @@ def generate_code(model, name='fss_mode'):
         }}
 
 
-        EmlError
+        int32_t
         {name}_score(const float values[], int32_t values_length, float *probabilities, float *score)
         {{
 
@@ -144,7 +144,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
     if output_type == 'score':
         output_code = f"""
         float score;
-        const EmlError out = {name}_score(features, n_features, output, &score);
+        const int32_t out = {name}_score(features, n_features, output, &score);
         if (out != EmlOk) {{
             return -out; // error
         }}
@@ -153,7 +153,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
     elif output_type == 'predict_log_proba':
         output_code = f"""
         float score;
-        const EmlError out = {name}_score(features, n_features, output, &score);
+        const int32_t out = {name}_score(features, n_features, output, &score);
         if (out != EmlOk) {{
             return -out; // error
         }}
@@ -168,7 +168,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         output_code = f"""
         float score;
         float* resp = (float*)malloc(n_components * sizeof(float));
-        const EmlError out_resp = {name}_predict_proba(features, n_features, output, &score, resp);
+        const int32_t out_resp = {name}_predict_proba(features, n_features, output, &score, resp);
         if (out_resp != EmlOk) {{
             return -out_resp; // error
         }}
-- 
2.43.0


From ed7d14d63c5b265f8799644c4e7b4cacba0e8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 25/45] fix: trees: C functions check the feature count and
 that the model is complete, wide lengths, unaligned leaf read

---
 emlearn/eml_trees.h | 49 +++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..6967521 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -11,6 +11,7 @@
 #endif
 
 #include <stdint.h>
+#include <string.h>
 #include <math.h>
 #include <eml_common.h>
 
@@ -72,8 +73,9 @@ Returns an offset into the leaves structure
 */
 static int32_t
 eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
-                        const int16_t *features, int8_t features_length)
+                        const int16_t *features, int32_t features_length)
 {
+    (void)features_length;
     int32_t node_idx = tree_root;
 
     // TODO: see if using a pointer node instead of indirect adressing using node_idx improves perf
@@ -96,7 +98,7 @@ eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
         }
     }
 
-    const int16_t leaf = -node_idx-1;
+    const int32_t leaf = -node_idx-1;
 
     EML_LOG_BEGIN("eml-trees-predict-tree-end");
     EML_LOG_ADD_INTEGER("node", node_idx);
@@ -107,6 +109,20 @@ eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
 }
 
 
+// Check that the model is complete, and that the input is suitable for it
+static inline EmlError
+eml_trees_check(const EmlTrees *self, const int16_t *features, int32_t features_length)
+{
+    EML_PRECONDITION(self, EmlUninitialized);
+    EML_PRECONDITION(features, EmlUninitialized);
+    EML_PRECONDITION(self->nodes, EmlUninitialized);
+    EML_PRECONDITION(self->tree_roots, EmlUninitialized);
+    EML_PRECONDITION(self->leaves, EmlUninitialized);
+    EML_PRECONDITION(self->n_trees > 0, EmlUninitialized);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
+    return EmlOk;
+}
+
 static inline int32_t
 eml_trees_outputs_proba(const EmlTrees *self)
 {
@@ -116,19 +132,20 @@ eml_trees_outputs_proba(const EmlTrees *self)
 
 EmlError
 eml_trees_predict_proba(const EmlTrees *self,
-            const int16_t *features, int8_t features_length,
+            const int16_t *features, int32_t features_length,
             float *out, int32_t out_length)
 {
-    EML_PRECONDITION(features, EmlUninitialized);
+    EML_CHECK_ERROR(eml_trees_check(self, features, features_length));
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
+    const int leaf_bits_per_class = self->leaf_bits;
+    EML_PRECONDITION(leaf_bits_per_class == 0 || leaf_bits_per_class == 8, EmlUnsupported);
 
     for (int i=0; i<out_length; i++) {
         out[i] = 0.0f;
     }
 
-    const int leaf_bits_per_class = self->leaf_bits;
     if (leaf_bits_per_class == 0) {
         // majority voting. Leaf value is a class number
 
@@ -190,18 +207,18 @@ eml_trees_predict_proba(const EmlTrees *self,
 * \return The class number, or -EmlTreesError on failure
 */
 int32_t
-eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t features_length)
+eml_trees_predict(const EmlTrees *forest, const int16_t *features, int32_t features_length)
 {
+    if (eml_trees_check(forest, features, features_length) != EmlOk) {
+        return -EmlTreesErrorLength;
+    }
+
     EML_LOG_BEGIN("eml-trees-predict-start");
     EML_LOG_ADD_INTEGER("classes", forest->n_classes);
     EML_LOG_ADD_INTEGER("features-model", forest->n_features);
     EML_LOG_ADD_INTEGER("features-input", features_length);
     EML_LOG_END();
 
-    if (features_length != forest->n_features) {
-        return -EmlTreesErrorLength;
-    }
-
     if (forest->n_classes > EMTREES_MAX_CLASSES) {
         return -EmlTreesErrorLength;
     }
@@ -249,9 +266,11 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t featur
 */
 EmlError
 eml_trees_regress(const EmlTrees *forest,
-        const int16_t *features, int8_t features_length,
-        float *out, int8_t out_length)
+        const int16_t *features, int32_t features_length,
+        float *out, int32_t out_length)
 {
+    EML_CHECK_ERROR(eml_trees_check(forest, features, features_length));
+    EML_PRECONDITION(out, EmlUninitialized);
 
     EML_LOG_BEGIN("eml-trees-regress-start");
     EML_LOG_ADD_INTEGER("trees", forest->n_trees);
@@ -274,8 +293,8 @@ eml_trees_regress(const EmlTrees *forest,
     for (int32_t i=0; i<forest->n_trees; i++) {
         const int32_t leaf_number = eml_trees_predict_tree(forest, forest->tree_roots[i], features, features_length);        
         const int32_t leaf_offset = leaf_number * leaf_size;
-        const float *leaf_data = (float *)(forest->leaves + leaf_offset);
-        const float val = *leaf_data;
+        float val; // the leaves are bytes, and might not be aligned for a float
+        memcpy(&val, forest->leaves + leaf_offset, leaf_size);
         sum += val;
     }
 
@@ -299,7 +318,7 @@ eml_trees_regress(const EmlTrees *forest,
 */
 float
 eml_trees_regress1(const EmlTrees *forest,
-        const int16_t *features, int8_t features_length)
+        const int16_t *features, int32_t features_length)
 {
     float out[1];
     EmlError err = eml_trees_regress(forest,
-- 
2.43.0


From bf0ad92ba5d0997efc78158807f398e85453ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 26/45] fix: trees: inline code refuses wrong numbers of
 features and outputs

---
 emlearn/trees.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 670ee9e..f60d1dd 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -468,6 +468,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_regressor_func = """float {function_name}(const {ctype} *features, int32_t features_length) {{
 
+        if (features_length != {n_features}) {{
+            return NAN;
+        }}
+
         float avg = 0;
 
         {tree_predictions}
@@ -477,6 +481,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     """.format(**{
       'function_name': name+"_predict",
       'n_classes': n_classes,
+      'n_features': n_features,
       'n_trees': len(roots),
       'tree_predictions': '\n    '.join([ tree_vote_regressor(n) for n in tree_names ]),
       'ctype': ctype,
@@ -484,6 +489,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_predict_majority_func = """int32_t {function_name}(const {ctype} *features, int32_t features_length) {{
 
+        if (features_length != {n_features}) {{
+            return -1;
+        }}
+
         int32_t votes[{n_classes}] = {{0,}};
         int32_t _class = -1;
 
@@ -503,6 +512,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     """.format(**{
       'function_name': name+"_predict",
       'n_classes': n_classes,
+      'n_features': n_features,
       'tree_predictions': '\n    '.join([ tree_vote_classifier(n) for n in tree_names ]),
       'ctype': ctype,
     })
@@ -510,6 +520,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_proba_majority_func = """int {function_name}(const {ctype} *features, int32_t features_length, float *out, int out_length) {{
 
+        if (features_length != {n_features} || out_length != {n_classes}) {{
+            return 1;
+        }}
+
         int32_t _class = -1;
 
         for (int i=0; i<out_length; i++) {{
@@ -527,6 +541,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     """.format(**{
       'function_name': name+"_predict_proba",
       'n_classes': n_classes,
+      'n_features': n_features,
       'tree_predictions': '\n    '.join([ tree_vote_proba(n) for n in tree_names ]),
       'n_trees': len(tree_names),
       'ctype': ctype,
@@ -543,6 +558,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         return c
     forest_proba_proportions_func = """int {function_name}(const {ctype} *features, int32_t features_length, float *out, int out_length) {{
 
+        if (features_length != {n_features} || out_length != {n_classes}) {{
+            return 1;
+        }}
+
         int offset = 0;
 
         for (int i=0; i<out_length; i++) {{
@@ -560,6 +579,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     """.format(**{
       'function_name': name+"_predict_proba",
       'n_classes': n_classes,
+      'n_features': n_features,
       'tree_predictions': '\n    '.join([ tree_vote_leaf_proportion(i, n) for i, n in enumerate(tree_names) ]),
       'n_trees': len(tree_names),
       'ctype': ctype,
@@ -568,6 +588,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
     forest_predict_proportions_func = """int32_t {function_name}(const {ctype} *features, int32_t features_length) {{
 
+        if (features_length != {n_features}) {{
+            return -1;
+        }}
+
         float out[{n_classes}] = {{0.0f,}};
 
         int offset = 0;
@@ -589,6 +613,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     """.format(**{
       'function_name': name+"_predict",
       'n_classes': n_classes,
+      'n_features': n_features,
       'tree_predictions': '\n    '.join([ tree_vote_leaf_proportion(i, n) for i, n in enumerate(tree_names) ]),
       'ctype': ctype,
     })
@@ -612,6 +637,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     // !!! This file is generated using emlearn !!!
 
     #include <stdint.h>
+    #include <math.h> // NAN
     """
 
     parts  = [head] + tree_funcs
-- 
2.43.0


From e97d8feb398239f4b738e8b2288d1c50c40154f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 27/45] fix: networks: incomplete models and wrong buffer sizes
 are errors, also for inline code

---
 emlearn/eml_net.h                 | 6 ++++--
 emlearn/templates/net_float.jinja | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 9f1b4a9..e607974 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -104,8 +104,8 @@ eml_net_argmax(const float *values, int32_t values_length) {
 
 static bool
 eml_net_valid(EmlNet *model) {
-    bool not_null = model->layers && model->activations1 && model->activations2;
-    return not_null;
+    bool not_null = model && model->layers && model->activations1 && model->activations2;
+    return not_null && model->n_layers > 0;
 }
 
 static inline int32_t
@@ -249,6 +249,7 @@ EmlError
 eml_net_infer(EmlNet *model, const float *features, int32_t features_length)
 {
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(features_length == model->layers[0].n_inputs, EmlSizeMismatch);
     EML_PRECONDITION(model->activations_length >= eml_net_find_largest_layer(model), EmlSizeMismatch);
@@ -365,6 +366,7 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..7bed4a7 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -22,6 +22,10 @@ EmlError
         int32_t buffer_length
     )
 {
+    EML_PRECONDITION(in && activations1 && activations2, EmlUninitialized);
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+    EML_PRECONDITION(buffer_length >= {{ prefix }}_activations_length, EmlSizeMismatch);
+
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
-- 
2.43.0


From db9c6705bd99553876ff164bd3cd9918f6b78533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 28/45] fix: neighbors: incomplete models and a k of zero are
 errors, lengths do not wrap

---
 emlearn/eml_neighbors.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 3c9c6c1..0d99513 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -104,9 +104,9 @@ typedef struct _EmlNeighborsModel {
 
 EmlError
 eml_neighbors_check(EmlNeighborsModel *self,
-        int16_t data_length, int16_t labels_length, int16_t distances_length)
+        int32_t data_length, int32_t labels_length, int32_t distances_length)
 {
-    const int32_t expect_data_length = self->max_items * self->n_features;
+    const int32_t expect_data_length = (int32_t)self->max_items * self->n_features;
     if (data_length < expect_data_length) {
         return EmlSizeMismatch;
     }
@@ -131,9 +131,11 @@ eml_neighbors_check(EmlNeighborsModel *self,
 */
 EmlError
 eml_neighbors_add_item(EmlNeighborsModel *self,
-        const int16_t *values, int16_t values_length,
+        const int16_t *values, int32_t values_length,
         int16_t label)
 {
+    EML_PRECONDITION(self && values, EmlUninitialized);
+    EML_PRECONDITION(self->data && self->labels, EmlUninitialized);
     EML_PRECONDITION(values_length == self->n_features, EmlSizeMismatch);
     EML_PRECONDITION(self->n_items < self->max_items, EmlSizeMismatch);
 
@@ -157,6 +159,8 @@ eml_neighbors_infer(EmlNeighborsModel *self,
             const int16_t *features, int features_length,
             EmlNeighborsDistanceItem *distances, int distances_length)
 {
+    EML_PRECONDITION(self && features && distances, EmlUninitialized);
+    EML_PRECONDITION(self->data && self->labels, EmlUninitialized);
     EML_PRECONDITION(distances_length >= self->n_items, EmlSizeMismatch);
     EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
 
@@ -189,7 +193,7 @@ eml_neighbors_find_nearest(EmlNeighborsModel *self,
         EmlNeighborsDistanceItem *distances, int distances_length,
         int k, int16_t *out)
 {
-    EML_PRECONDITION(k <= distances_length, EmlSizeMismatch);
+    EML_PRECONDITION(k > 0 && k <= distances_length, EmlSizeMismatch);
 
 #if EML_NEIGHBORS_LOG_LEVEL > 1
         EML_LOG_BEGIN("eml_neighbors_find_nearest_start");
@@ -262,7 +266,8 @@ eml_neighbors_predict(EmlNeighborsModel *self,
         EmlNeighborsDistanceItem *distances, int distances_length,
         int16_t *out)
 {
-    // NOTE: Preconditions checked inside _infer()
+    EML_PRECONDITION(out, EmlUninitialized);
+    // NOTE: other preconditions checked inside _infer()
     // Compute distances
     const EmlError infer_err = \
         eml_neighbors_infer(self, features, features_length, distances, distances_length);
-- 
2.43.0


From 559ba9c5fee4edd9d593fdc18bbefa66227882af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 29/45] fix: elliptic envelope: an error is not reported as an
 outlier

---
 emlearn/distance.py    | 5 +++--
 emlearn/eml_distance.h | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 9050af6..51bd662 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -69,6 +69,7 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
 
     main = f'''
     #include <stdio.h>
+    #include <math.h>
 
     // Data definitions
     {modifiers} EmlEllipticEnvelope {classifier_name} = {{
@@ -83,8 +84,8 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
         float dist = 0.0;
         const int outlier = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
-        (void)outlier;
-        return dist; 
+        return (outlier < 0) ? NAN : dist; // negative is an error
+
     }}
     '''
 
diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..df9d570 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -57,14 +57,16 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(self && features, -EmlUninitialized);
+    EML_PRECONDITION(self->means && self->precision, -EmlUninitialized);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From 860110b2eebec0e6ef668f14ddd4163e3352e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 30/45] fix: mixture, bayes: incomplete models and wrong input
 lengths are errors

---
 emlearn/eml_bayes.h   |  1 +
 emlearn/eml_mixture.h | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 9cb666d..56283d2 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -114,6 +114,7 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
 
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
+   EML_PRECONDITION(model->summaries, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes <= EML_MAX_CLASSES, -EmlUnsupported);
    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 13031d9..e172ed9 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -157,7 +157,7 @@ print_array(const float *array, int n) {
 * \param values_length Input data values
 * \param probabilities Return location for probabilities. Must be length == n_components
 *
-* \return EmlOk on success, or error on failure
+* \return EmlOk on success, or -EmlError on failure
 */
 int32_t
 eml_mixture_predict_log_proba(EmlMixtureModel *model,
@@ -168,6 +168,10 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(model->means && model->precisions, -EmlUninitialized);
+    EML_PRECONDITION(model->log_dets && model->log_weights, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
+    EML_PRECONDITION(probabilities, -EmlUninitialized);
 
     float *out = probabilities;
     const int n_features = model->n_features;
@@ -218,15 +222,15 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
                 break;
 
             case EmlCovarianceTied:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
             case EmlCovarianceDiagonal:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
             case EmlCovarianceSpherical:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
         }
@@ -256,7 +260,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
 * \param probabilities Return location for probabilities. Must be length == n_components
 * \param out_score Return location for the overall outlier score (single value).
 *
-* \return EmlOk on success, or error on failure
+* \return EmlOk on success, or -EmlError on failure
 */
 int32_t
 eml_mixture_score(EmlMixtureModel *model,
@@ -268,6 +272,7 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(out_score, -EmlUninitialized);
 
 
     int32_t status = \
@@ -294,6 +299,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(out_resp, -EmlUninitialized);
 
     int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
-- 
2.43.0


From 3d453ab06560c97ae4b0c3542fb927bace3cedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 31/45] fix: include guards for eml_neighbors.h, eml_csv.h and
 eml_iir.h

---
 emlearn/eml_csv.h       | 4 ++++
 emlearn/eml_iir.h       | 5 +++++
 emlearn/eml_neighbors.h | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 61d7b9c..793a33e 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -1,4 +1,7 @@
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 // Basic support for Comma Separated Values (CSV)
 // As per RFC4180, https://www.ietf.org/rfc/rfc4180.txt
 // Not intended to parse every wierd "csv" like thing out there
@@ -269,3 +272,4 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#endif // EML_CSV_H
diff --git a/emlearn/eml_iir.h b/emlearn/eml_iir.h
index b9dc39d..f58d1b5 100644
--- a/emlearn/eml_iir.h
+++ b/emlearn/eml_iir.h
@@ -1,4 +1,7 @@
 
+#ifndef EML_IIR_H
+#define EML_IIR_H
+
 #ifndef EML_IIR
 #define EML_IIR
 
@@ -92,3 +95,5 @@ eml_iir_filter(EmlIIR filter, float in) {
 #endif
 
 #endif // EML_IIR
+
+#endif // EML_IIR_H
diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 0d99513..41f5dc2 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -1,4 +1,7 @@
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 /**
 \brief Nearest Neighbours
 
@@ -287,3 +290,4 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#endif // EML_NEIGHBORS_H
-- 
2.43.0


From c457b8a194808f0094bd02502e454e19291f9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 32/45] fix: trees: soft voting gives a class also when all
 proportions round to zero

With many classes or few leaf_bits the quantized proportions of a leaf can all be zero.
Prediction then returned -1, which is an error code.
---
 emlearn/eml_trees.h | 7 ++++---
 emlearn/trees.py    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 6967521..0abb1f9 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -232,9 +232,10 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int32_t featu
         return -EmlTreesUnknownError;
     }
 
-    int32_t most_voted_class = -1;
-    float most_voted_value = 0.0f;
-    for (int32_t i=0; i<n_classes; i++) {
+    // proportions can all be rounded to zero
+    int32_t most_voted_class = 0;
+    float most_voted_value = votes[0];
+    for (int32_t i=1; i<n_classes; i++) {
         //printf("votes[%d]: %d\n", i, votes[i]);
         if (votes[i] > most_voted_value) {
             most_voted_class = i;
diff --git a/emlearn/trees.py b/emlearn/trees.py
index f60d1dd..8aa1003 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -599,9 +599,10 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         {tree_predictions}
     
         // argmax over probabilities
-        int32_t most_voted_class = -1;
-        float most_voted_proba = 0.0f;
-        for (int32_t i=0; i<{n_classes}; i++) {{
+        // proportions can all be rounded to zero
+        int32_t most_voted_class = 0;
+        float most_voted_proba = out[0];
+        for (int32_t i=1; i<{n_classes}; i++) {{
 
             if (out[i] > most_voted_proba) {{
                 most_voted_class = i;
-- 
2.43.0


From 93e6d8f974049fffd3bd4decac7397dbf9a18227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 33/45] fix: trees: refuse options that can not be represented,
 respect kind

leaf_bits outside of 0-8 gave classifiers that voted with bytes of floats, and loadable
regressors that always return NAN. Regressors that are a subclass of a supported model
were treated as classifiers, also when kind was given. The documented dtype='int8' gave code
that does not compile. A relative jump of 2**15 does not fit in int16_t.
---
 emlearn/convert.py |  4 ++--
 emlearn/trees.py   | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index 3c1cdb7..aeb20b1 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -67,8 +67,8 @@ def convert(estimator,
 
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
-        # return_type is intentionally not passed through - the Wrapper will guess based on Class name
-        return trees.Wrapper(estimator, method, dtype=dtype, **kwargs)
+        # return_type is intentionally not passed through - the Wrapper will guess based on kind
+        return trees.Wrapper(estimator, method, dtype=dtype, kind=kind, **kwargs)
     elif kind in ['EllipticEnvelope']:
         if dtype is None:
             dtype = 'float'
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 8aa1003..06750b7 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -22,6 +22,20 @@ SUPPORTED_ESTIMATORS=[
     'DecisionTreeRegressor',
 ]
 
+SUPPORTED_DTYPES=[
+    'float',
+    'double',
+    'int',
+    'int8_t',
+    'int16_t',
+    'int32_t',
+    'int64_t',
+    'uint8_t',
+    'uint16_t',
+    'uint32_t',
+    'uint64_t',
+]
+
 
 def quantize_probabilities_into_byte(p, bits=8):
     assert bits <= 8, bits
@@ -288,7 +302,7 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
+def assert_valid_child(value, child_max = (2**15)-1, child_min = -2**15):
     assert value >= child_min, value
     assert value <= child_max, value
 
@@ -753,7 +767,7 @@ def generate_c_loadable(forest, name, n_features,
 
 
 class Wrapper:
-    def __init__(self, estimator, method, dtype='int16_t', leaf_bits=None):
+    def __init__(self, estimator, method, dtype='int16_t', leaf_bits=None, kind=None):
 
         if method is None:
             method = 'inline'
@@ -761,8 +775,13 @@ class Wrapper:
         self.dtype = dtype
         if self.dtype is None:
             self.dtype = 'int16_t'
+        if self.dtype + '_t' in SUPPORTED_DTYPES:
+            self.dtype += '_t'
+        if self.dtype not in SUPPORTED_DTYPES:
+            raise ValueError("Unsupported dtype '{}'. Supported: {}".format(dtype, SUPPORTED_DTYPES))
 
-        kind = type(estimator).__name__
+        if kind is None:
+            kind = type(estimator).__name__
         leaf = 'argmax'
         self.is_classifier = True
         self.out_dtype = "int"
@@ -781,7 +800,12 @@ class Wrapper:
             else:
                 leaf_bits = 32
 
-        if leaf_bits > 0 and leaf_bits <= 8 and self.is_classifier:
+        if self.is_classifier and not (leaf_bits >= 0 and leaf_bits <= 8):
+            raise ValueError("Unsupported leaf_bits for classification: {}".format(leaf_bits))
+        if not self.is_classifier and leaf_bits != 32:
+            raise ValueError("Regression only supports leaf_bits=32, got {}".format(leaf_bits))
+
+        if leaf_bits > 0 and self.is_classifier:
             leaf = 'probabilities'
 
         self.leaf_bits = leaf_bits
@@ -814,6 +838,10 @@ class Wrapper:
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
+        # EmlTrees.n_classes is int8_t
+        if self.method == 'loadable' and self.n_classes > 127:
+            raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max=127")
+
         self._classifier = None # lazy-initialized by _build_classifier
 
     def _build_classifier(self):
-- 
2.43.0


From a4ae44f0ecb58f0924a44d9426ee7ad25b7ae861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 34/45] fix: net: refuse layers and outputs that can not be
 represented

An activation layer replaced the activation of the layer before it, ReLU.max_value was ignored,
and a custom function was taken for the standard activation with the same name.
Multilabel classifiers were converted as if they had exclusive classes.
Regression with several outputs predicted NAN.
---
 emlearn/net.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 6ee757e..f0b06fc 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -100,6 +100,8 @@ class Wrapper:
         if self.return_type == 'classifier':
             return self.classifier.predict(X)
         elif self.return_type == 'regressor':
+            if self.weights[-1].shape[1] != 1:
+                raise NotImplementedError("predict() only supports regression with a single output")
             return self.classifier.regress(X)
         else:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
@@ -343,6 +345,8 @@ def convert_sklearn_mlp(model, method, **kwargs):
 
     if (model.n_layers_ < 3):
         raise ValueError("Model must have at least one hidden layer")
+    if model.out_activation_ == 'logistic' and model.n_outputs_ > 1:
+        raise ValueError("Multilabel classification is not supported")
 
     weights = model.coefs_
     biases = model.intercepts_
@@ -352,6 +356,10 @@ def convert_sklearn_mlp(model, method, **kwargs):
 
 def from_keras_activation(act):
     name = act.__name__
+    library = act.__module__.split('.')[0]
+    if library not in ('keras', 'tf_keras', 'tensorflow', 'torch', 'jax'):
+        # can be anything, also if it has the name of a standard function
+        raise ValueError("Unsupported activation '{}' from module '{}'".format(name, act.__module__))
     remap = {
         'sigmoid': 'logistic',
         'linear': 'identity',
@@ -380,8 +388,16 @@ def convert_keras(model, method, **kwargs):
     def set_activation(activation):
         # merge dedicated Activation layers into the previous layer
         # TODO: maybe make activation a separate layer in our representation
+        previous = activations[-1]
+        if activation == 'identity' or (activation == 'relu' and previous == 'relu'):
+            return # makes no difference
+        if previous != 'identity':
+            raise NotImplementedError("Activation '{}' after activation '{}' is not supported".format(activation, previous))
         activations[-1] = activation
 
+    if len(model.input_shape) != 2:
+        raise NotImplementedError("Only 1 dimensional inputs are supported, got shape {}".format(model.input_shape))
+
     for i, l in enumerate(model.layers):
         layer_type = type(l).__name__
 
@@ -397,6 +413,7 @@ def convert_keras(model, method, **kwargs):
         elif layer_type == 'ReLU':
             assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
             assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
+            assert l.max_value is None, 'ReLU.max_value must be None'
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
-- 
2.43.0


From 63200997139af839e24cf8134ab873e2a4d211f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 35/45] fix: mixture: refuse unknown inference methods

---
 emlearn/mixture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 878ff86..21547ca 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -304,7 +304,9 @@ class Wrapper:
 
         if classifier is None:
             classifier = 'loadable'
-    
+        if classifier not in ('loadable', 'inline'):
+            raise ValueError("Unsupported inference method '{}'".format(classifier))
+
         n_components, n_features = estimator.means_.shape
         covariance_type = estimator.covariance_type
         precisions_chol = estimator.precisions_cholesky_
-- 
2.43.0


From aa46349e633e820b43739c2319a5369c276ec6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 36/45] fix: bayes: respect the class priors

The priors were ignored. Classes that are rare in the training data, or have been given a low prior,
were predicted too often.
---
 emlearn/bayes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 2d1e54a..f84472f 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -81,7 +81,6 @@ def generate_c(model, name='myclassifier'):
     return '\n\n'.join([head, summaries, model, predict_function]) 
 
 
-# TODO: support class_priors_
 # TODO: support predict_log_proba / predict_proba
 class Wrapper(object):
     """
@@ -102,6 +101,9 @@ class Wrapper(object):
             # pre 1.0
             variance = estimator.sigma_
 
+        priors = estimator.class_prior_
+        if numpy.min(priors) < 2**-16:
+            raise ValueError("Class prior {} is too low".format(numpy.min(priors)))
 
         for class_n in range(0, n_classes):
             for feature_n in range(0, n_features):
@@ -111,6 +113,9 @@ class Wrapper(object):
                 if abs(mean) >= 2**15 or std >= 2**15 or std < 2**-16:
                     raise ValueError("Feature {} of class {} has mean {} and standard deviation {}, which is outside of the range of 16.16 fixed-point" \
                         .format(feature_n, class_n, mean, std))
+                if feature_n == 0:
+                    # the log probability of a class is a sum, of which the prior is one term
+                    std_log2 -= numpy.log2(priors[class_n])
                 model[class_n,feature_n] = (mean, std, std_log2)
         self.model = model
 
-- 
2.43.0


From cc3fa1f2c8ed760feaab0034af22c95661fc3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 37/45] fix: the size of rows of a compiled model follows from
 its number of features

---
 emlearn/common.py  | 12 ++++++++----
 emlearn/eml_test.h | 11 +++--------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index cca1fb9..264c11b 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -41,6 +41,7 @@ def build_classifier(cmodel, name, temp_dir,
         warn_flags=None,
         warn_error=True,
         out_dtype='int',
+        n_features=None,
         ):
     if not os.path.exists(temp_dir):
         os.makedirs(temp_dir)
@@ -58,6 +59,9 @@ def build_classifier(cmodel, name, temp_dir,
     # classifiers return negative numbers on errors
     is_classifier = int(out_dtype == 'int')
 
+    # space for the values of a row
+    row_length = max(8192, n_features or 0)
+
     tree_name = name
     def_file_name = name+'.h'
     def_file = os.path.join(temp_dir, def_file_name)
@@ -80,7 +84,7 @@ def build_classifier(cmodel, name, temp_dir,
     if n_classes:
         code = """
         // rows can have many values
-        #define EML_CSV_VALUES_LENGTH 65536
+        #define EML_CSV_VALUES_LENGTH {row_length}
         #define EML_CSV_BUFFER_LENGTH (64*EML_CSV_VALUES_LENGTH)
 
         #include "{def_file_name}"
@@ -109,7 +113,7 @@ def build_classifier(cmodel, name, temp_dir,
         # Trivial program that reads values on stdin, and returns classifications on stdout
         code = """
         // rows can have many values
-        #define EML_CSV_VALUES_LENGTH 65536
+        #define EML_CSV_VALUES_LENGTH {row_length}
         #define EML_CSV_BUFFER_LENGTH (64*EML_CSV_VALUES_LENGTH)
 
         #include "{def_file_name}"
@@ -198,14 +202,14 @@ class CompiledClassifier():
 
         self.bin_path = build_classifier(cmodel, name,
                 include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function,
-                out_dtype=out_dtype)
+                out_dtype=out_dtype, n_features=n_features)
 
         self.proba_bin_path = None
         if proba_call is not None:
             self.proba_bin_path = build_classifier(cmodel, name+'_proba',
                     include_dir=include_dir, temp_dir=temp_dir,
                     func=proba_call, n_classes=n_classes,
-                    test_function=test_function)
+                    test_function=test_function, n_features=n_features)
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
diff --git a/emlearn/eml_test.h b/emlearn/eml_test.h
index 2886a5b..856b431 100644
--- a/emlearn/eml_test.h
+++ b/emlearn/eml_test.h
@@ -13,7 +13,7 @@ extern "C" {
 #endif
 
 #ifndef EML_CSV_BUFFER_LENGTH
-#define EML_CSV_BUFFER_LENGTH (2*1024)
+#define EML_CSV_BUFFER_LENGTH 2*1024
 #endif
 #ifndef EML_CSV_VALUES_LENGTH
 #define EML_CSV_VALUES_LENGTH 256
@@ -56,17 +56,12 @@ eml_test_parse_csv_line(char *buffer, float *values, int32_t values_length,
 
 EmlError
 eml_test_read_csv(FILE *fp, EmlCsvCallback row_callback) {
-    static char buffer[EML_CSV_BUFFER_LENGTH];
-    static float values[EML_CSV_VALUES_LENGTH];
+    char buffer[EML_CSV_BUFFER_LENGTH];
+    float values[EML_CSV_VALUES_LENGTH];
     int row_no = 0;
 
     while(fgets(buffer, EML_CSV_BUFFER_LENGTH, fp))
     {
-        if (strlen(buffer) == EML_CSV_BUFFER_LENGTH-1 && strchr(buffer, '\n') == NULL && !feof(fp)) {
-            // did not get the complete row
-            return EmlSizeMismatch;
-        }
-
         int value_no = 0;
         const EmlError e = eml_test_parse_csv_line(buffer, values, EML_CSV_VALUES_LENGTH, &value_no);
         EML_CHECK_ERROR(e);
-- 
2.43.0


From 50afdb9987a626c1bcafafabad0cdcbea6614fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 38/45] fix: net, neighbors: converted models keep their own
 copy of the parameters

---
 emlearn/neighbors.py | 5 +++--
 emlearn/net.py       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index fc66655..5e91689 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -40,8 +40,9 @@ class Wrapper:
         if inference is None:
             inference = 'loadable'
 
-        self.fit_data_X = estimator._fit_X
-        self.fit_data_Y = estimator._y
+        # the source model does not copy the training data
+        self.fit_data_X = numpy.array(estimator._fit_X)
+        self.fit_data_Y = numpy.array(estimator._y)
         self.n_neighbors = estimator.n_neighbors
         self.inference = inference
 
diff --git a/emlearn/net.py b/emlearn/net.py
index f0b06fc..1d4fc94 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -40,8 +40,9 @@ class Wrapper:
             classifier = 'loadable'
 
         self.activations = activations
-        self.weights = weights
-        self.biases = biases
+        # the arrays of the source model can be updated, if it is trained further
+        self.weights = [ numpy.array(w) for w in weights ]
+        self.biases = [ numpy.array(b) for b in biases ]
         self.classifier = None
         self.return_type = return_type
         self.inference_type = classifier
-- 
2.43.0


From 6bc6a40059daddb9ede27407a57363166d6f2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 39/45] fix: envelope, mixture: converted models keep their own
 copy of the precision matrices

---
 emlearn/distance.py | 2 +-
 emlearn/mixture.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 51bd662..75aba8a 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -100,7 +100,7 @@ class Wrapper:
 
         precision = estimator.get_precision()
         self._means = estimator.location_.copy()
-        self._precision = precision
+        self._precision = precision.copy()
         self._offset = estimator.offset_
 
         if classifier == 'inline':
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 21547ca..038fde5 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -324,7 +324,7 @@ class Wrapper:
         self._log_det = log_det
         self._means = estimator.means_.copy()
         self._covariance_type = covariance_type
-        self._precisions_col = precisions_chol
+        self._precisions_col = precisions_chol.copy()
         self._log_weights = get_log_weights(estimator)
 
 
-- 
2.43.0


From a846ee5b3e45b39da86d5da2301014385419e098 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 40/45] fix: log: arrays are printed as key=value, like every
 other value

---
 emlearn/eml_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index f1ab773..a10f7b8 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -109,7 +109,7 @@ Add an array
 */
 #define EML_LOG_ADD_ARRAY(key, arr, len, fmt) \
 do { \
-    EML_LOG_PRINTF(" %s", key); \
+    EML_LOG_PRINTF(" %s=", key); \
     EML_LOG_PRINT_ARRAY(arr, len, fmt); \
 } while (0)
 
-- 
2.43.0


From f5cd94aa47e74d2c4ac0c5c4a4f6a99807efcbdd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 41/45] fix: size: programs for ARM are linked with the math
 library

---
 emlearn/platforms/arm-cortex/Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/platforms/arm-cortex/Makefile b/emlearn/platforms/arm-cortex/Makefile
index 13d73d6..19355fe 100644
--- a/emlearn/platforms/arm-cortex/Makefile
+++ b/emlearn/platforms/arm-cortex/Makefile
@@ -16,7 +16,7 @@ ${BIN}.hex: ${BIN}.elf
 	${OBJCOPY} -O ihex -R .eeprom $< $@
 
 ${BIN}.elf: ${OBJS}
-	${CC} --specs=nosys.specs ${ARM_CORTEX_CFLAGS} -o $@ $^
+	${CC} --specs=nosys.specs ${ARM_CORTEX_CFLAGS} -o $@ $^ -lm
 
 clean:
 	rm -f ${BIN}.elf ${BIN}.hex ${OBJS}
-- 
2.43.0


From 06c4e1d0dee7169658ca5914d73a2e3e1f47adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:35 +0000
Subject: [PATCH 42/45] fix: io, fileio, fixedpoint, quantizer: headers include
 what they use, fileio is valid C++

---
 emlearn/eml_fileio.h     | 8 +++++---
 emlearn/eml_fixedpoint.h | 2 ++
 emlearn/eml_io.h         | 3 +++
 emlearn/eml_quantizer.h  | 4 ++++
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 3e3410e..3936b3c 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -13,6 +13,8 @@ Useful together with EmlCsvReader / EmlCsvWriter and related.
 extern "C" {
 #endif
 
+#include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 
 /**
@@ -20,7 +22,7 @@ extern "C" {
 */
 int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fwrite(buffer, 1, size, fptr);
 }
 
@@ -29,7 +31,7 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 */
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fread(buffer, 1, size, fptr);
 }
 
@@ -38,7 +40,7 @@ int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 */
 int eml_fileio_seek(void *context, size_t position)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fseek(fptr, position, SEEK_SET);
 }
 
diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 3a29fe7..9ec9ddf 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -2,6 +2,8 @@
 #ifndef EML_FIXEDPOINT_H
 #define EML_FIXEDPOINT_H
 
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_io.h b/emlearn/eml_io.h
index 2c9a089..483c731 100644
--- a/emlearn/eml_io.h
+++ b/emlearn/eml_io.h
@@ -2,6 +2,9 @@
 #ifndef EML_IO_H
 #define EML_IO_H
 
+#include <stddef.h>
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_quantizer.h b/emlearn/eml_quantizer.h
index 2ce3d60..7ed1e3a 100644
--- a/emlearn/eml_quantizer.h
+++ b/emlearn/eml_quantizer.h
@@ -2,6 +2,10 @@
 #ifndef EML_QUANTIZER_H
 #define EML_QUANTIZER_H
 
+#include <eml_common.h>
+#include <math.h>
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From fd0730d57d481f5b5f9f3746cff200e47b80209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:35 +0000
Subject: [PATCH 43/45] fix: fixedpoint: Q16 conversions where int has 16 bits

---
 emlearn/eml_fixedpoint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 9ec9ddf..74f1b5c 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -25,11 +25,11 @@ typedef int32_t eml_fixed32_t;
 */
 typedef int32_t eml_q16_t;
 #define EML_Q16_FRACT_BITS 16
-#define EML_Q16_ONE (1 << EML_Q16_FRACT_BITS)
-#define EML_Q16_FROMINT(x) ((x) << EML_Q16_FRACT_BITS)
-#define EML_Q16_FROMFLOAT(x) ((int)((x) * (1 << EML_Q16_FRACT_BITS))) 
+#define EML_Q16_ONE ((eml_q16_t)1 << EML_Q16_FRACT_BITS)
+#define EML_Q16_FROMINT(x) ((eml_q16_t)(x) << EML_Q16_FRACT_BITS)
+#define EML_Q16_FROMFLOAT(x) ((eml_q16_t)((x) * EML_Q16_ONE)) 
 #define EML_Q16_TOINT(x) ((x) >> EML_Q16_FRACT_BITS)
-#define EML_Q16_TOFLOAT(x) (((float)(x)) / (1 << EML_Q16_FRACT_BITS))
+#define EML_Q16_TOFLOAT(x) (((float)(x)) / EML_Q16_ONE)
 
 // Fixed-point math
 #define eml_q16_mul(x, y) ( ((x) >> EML_Q16_FRACT_BITS/2) * ((y)>> EML_Q16_FRACT_BITS/2) )
-- 
2.43.0


From 2c798561b1523075f7078da054706d06d00d63f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:57 +0000
Subject: [PATCH 44/45] fix: audio: mel bands must not read past the end of the
 spectrum

A limit whose bin number equals the number of bins was accepted, and the
value after the spectrum was read.
---
 emlearn/eml_audio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..f0beb7a 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -102,7 +102,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From bda5deb735b75d8b0a23eaf84d9acec207b78110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:57 +0000
Subject: [PATCH 45/45] fix: audio: mel spectrogram counts the imaginary part,
 checks sizes

The power spectrum was computed from the real part of the transform only.
Frames, temporary buffers and band counts that do not fit were not refused,
buffers were overrun.
---
 emlearn/eml_audio.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index f0beb7a..efff89b 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -154,7 +154,11 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
- 
+
+    EML_PRECONDITION(inout.length == n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(temp.length >= n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels <= inout.length, EmlSizeMismatch);
+
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
 
@@ -162,6 +166,11 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     EML_CHECK_ERROR(eml_vector_set_value(temp, 0.0f));
     EML_CHECK_ERROR(eml_fft_forward(fft, inout.data, temp.data, inout.length));
 
+    // Magnitude, from the real and imaginary parts
+    for (int i=0; i<s_length; i++) {
+        inout.data[i] = sqrtf(inout.data[i]*inout.data[i] + temp.data[i]*temp.data[i]);
+    }
+
     // Compute mel-spectrogram
     EML_CHECK_ERROR(eml_audio_power_spectrogram(inout, eml_vector_view(temp, 0, s_length), n_fft));
     EML_CHECK_ERROR(eml_audio_melspec(mel_params, temp, eml_vector_view(inout, 0, n_mels)));
-- 
2.43.0

