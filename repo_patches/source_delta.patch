From ef2f5962458756bea01e5f03d7df7bd2b58c9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:16 +0000
Subject: [PATCH 01/69] fix: decode index gaps of 2^31 and more without
 truncating to int

---
 include/sol/pario/compress.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index b014fd7..a339369 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -33,8 +33,8 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
 inline const char* run_len_decode(
     const char* p, uint64_t& i) {  // read an int 7 bits at a time.
   size_t count = 0;
-  while (*p & 128) i = i | ((*(p++) & 127) << 7 * count++);
-  i = i | (*(p++) << 7 * count);
+  while (*p & 128) i = i | (uint64_t(*(p++) & 127) << 7 * count++);
+  i = i | (uint64_t(*(p++)) << 7 * count);
   return p;
 }
 
-- 
2.43.0


From 70ef422601acec4c751a8066c3565602dd648ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:47 +0000
Subject: [PATCH 02/69] fix: report a binary record cut inside its feature
 count as invalid

---
 src/sol/pario/binary_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..a73a814 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -32,7 +32,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
-- 
2.43.0


From 940461d5724c8fdf68d355fab162fdaeb9ed3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:54 +0000
Subject: [PATCH 03/69] fix: re-check emptiness after every wakeup in forced
 list removal

---
 include/sol/util/block_queue.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..0d8714f 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -146,14 +146,12 @@ class BlockQueue {
 
     int i = 0;
     for (i = 0; i < num; ++i) {
-      if (this->elem_num_ == 0) {
-        if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
-          this->nonfull_.notify_all();
-          this->nonempty_.wait();
-        } else {
-          break;
-        }
+      while (this->elem_num_ == 0 && force == true && i > 0 &&
+             elem_list[i - 1] != nullptr) {
+        this->nonfull_.notify_all();
+        this->nonempty_.wait();
       }
+      if (this->elem_num_ == 0) break;
       elem_list[i] = this->elems_[this->head_];
       this->head_ = (this->head_ + 1) % this->queue_size_;
       --this->elem_num_;
-- 
2.43.0


From a2c0bb4504b320ae4cf77763d7399a0c59c46e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:47 +0000
Subject: [PATCH 04/69] fix: drain the free-batch queue without blocking when
 releasing a data iterator

---
 include/sol/util/block_queue.h | 18 ++++++++++++++++++
 src/sol/pario/data_iter.cc     |  8 +++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 0d8714f..549f3d0 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  Dequeue an element if there is one, never blocks
+  ///
+  /// \param elem storage to save the element
+  ///
+  /// \return false if the queue is empty
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool has_elem = this->elem_num_ > 0;
+    if (has_elem) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return has_elem;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..4f11c06 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -28,13 +28,12 @@ DataIter::DataIter(int batch_size, int batch_num)
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
   // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 
   // send exit signal to readers
-  this->mini_batch_factory_.Enqueue(mb);
+  this->mini_batch_factory_.Enqueue(nullptr);
 
   // clear mini_batch_buf_
   int reader_count = static_cast<int>(this->readers_.size());
@@ -56,8 +55,7 @@ DataIter::~DataIter() {
   }
 
   // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 }
-- 
2.43.0


From 3abe5d066ba0a940b515aabe56101f467aad158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:50 +0000
Subject: [PATCH 05/69] fix: reject fields without digits and parse numbers
 without integer overflow or dropped digits

---
 include/sol/pario/numeric_parser.h | 95 +++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 28 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..7d3af31 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -39,30 +39,38 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    double acc = 0;
+    int num_digit = 0;
+    while (is_digit(p)) {
+      acc = acc * 10 + (*p++ - '0');
+      num_digit++;
+    }
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
-      while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
+      while (is_digit(p)) {
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
     }
+    if (num_digit + num_dec == 0) return 0;  // not a number
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
       if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      if (is_digit(p) == false) return 0;
+      exp_acc = ParseExp(p);
     }
     if (exp_acc < num_dec)
       return 0;
     else if (exp_acc > 0)
-      acc *= (int)(powf(10.f, (float)(exp_acc - num_dec)));
+      acc *= pow(10., exp_acc - num_dec);
+    acc *= s;
+    if (!(acc >= -2147483648. && acc <= 2147483647.)) return 0;
 
     end = strip_line(p);
-    return s * acc;
+    return (int)(acc);
   }
 
   // The following function is a home made strtoi
@@ -71,29 +79,36 @@ class SOL_EXPORTS NumericParser {
     p = strip_line(p);
 
     if (*p == '\0') return 0;
-    unsigned int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    double acc = 0;
+    int num_digit = 0;
+    while (is_digit(p)) {
+      acc = acc * 10 + (*p++ - '0');
+      num_digit++;
+    }
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
-      while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
+      while (is_digit(p)) {
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
     }
+    if (num_digit + num_dec == 0) return 0;  // not a number
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
       if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      if (is_digit(p) == false) return 0;
+      exp_acc = ParseExp(p);
     }
     if (exp_acc < num_dec)
       return 0;
     else if (exp_acc > 0)
-      acc *= (unsigned int)(powf(10.f, (float)(exp_acc - num_dec)));
+      acc *= pow(10., exp_acc - num_dec);
+    if (!(acc <= 4294967295.)) return 0;
     end = strip_line(p);
-    return acc;
+    return (unsigned int)(acc);
   }
 
   // The following function is a home made strtof. The
@@ -108,44 +123,68 @@ class SOL_EXPORTS NumericParser {
     if (*p == '\0') return 0;
 
     int s = 1;
-    if (*p == '+') p++;
-    if (*p == '-') {
+    if (*p == '+')
+      p++;
+    else if (*p == '-') {
       s = -1;
       p++;
     }
 
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    double acc = 0;
+    int num_digit = 0;
+    while (is_digit(p)) {
+      acc = acc * 10 + (*p++ - '0');
+      num_digit++;
+    }
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
-      while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
+      while (is_digit(p)) {
+        // further digits are beyond the precision
+        if (acc < 1e17) {
+          acc = acc * 10 + (*p - '0');
+          num_dec++;
+        }
+        num_digit++;
+        p++;
       }
-      while (*p >= '0' && *p <= '9') p++;
     }
+    if (num_digit == 0) return 0;  // not a number
 
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
       int exp_s = 1;
-      if (*p == '+') p++;
-      if (*p == '-') {
+      if (*p == '+')
+        p++;
+      else if (*p == '-') {
         exp_s = -1;
         p++;
       }
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-      exp_acc *= exp_s;
+      if (is_digit(p) == false) return 0;
+      exp_acc = exp_s * ParseExp(p);
     }
     exp_acc -= num_dec;
     end = strip_line(p);
-    if (exp_acc == 0) {
+    if (exp_acc == 0 || acc == 0) {
       return float(s * acc);
     } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+      return float(s * acc * pow(10., exp_acc));
+    }
+  }
+
+ private:
+  static inline bool is_digit(const char* p) { return *p >= '0' && *p <= '9'; }
+
+  // parse the digits of an exponent
+  static inline int ParseExp(char*& p) {
+    int exp_acc = 0;
+    while (is_digit(p)) {
+      if (exp_acc < 10000) exp_acc = exp_acc * 10 + (*p - '0');
+      p++;
     }
+    return exp_acc;
   }
 
 };  // class NumericParser
-- 
2.43.0


From 9105721b1ba7cafecc9165c8eedfb1f68596abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:05 +0000
Subject: [PATCH 06/69] fix: report failed writes when closing data files and
 saving models

---
 include/sol/pario/data_writer.h |  6 ++++--
 include/sol/pario/file_writer.h |  4 +++-
 src/sol/model/model.cc          |  4 ++++
 src/sol/pario/file_writer.cc    | 17 ++++++++++++++---
 src/sol/tools.cc                |  9 +++++----
 tools/concat.cc                 |  3 ++-
 6 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/sol/pario/data_writer.h b/include/sol/pario/data_writer.h
index 7a62e92..2afcf88 100755
--- a/include/sol/pario/data_writer.h
+++ b/include/sol/pario/data_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS DataWriter {
   /// \return Status code,  Status_OK if succeed
   virtual int Open(const std::string& path, const char* mode = "w");
 
-  /// \brief Close the reader
-  virtual void Close() { this->file_writer_.Close(); }
+  /// \brief Close the writer
+  ///
+  /// \return Status code, Status_OK if everything has been written
+  virtual int Close() { return this->file_writer_.Close(); }
 
   /// \brief  Check the status of the data handler
   ///
diff --git a/include/sol/pario/file_writer.h b/include/sol/pario/file_writer.h
index 3ef4d59..594bef0 100755
--- a/include/sol/pario/file_writer.h
+++ b/include/sol/pario/file_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS FileWriter {
 
   /**
    * \brief  Close the file
+   *
+   * \return Status code, Status_OK if everything has been written
    */
-  void Close();
+  int Close();
 
   /**
    * Good : Test if the file writer is good
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..0971450 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -173,6 +173,10 @@ int Model::Save(const string& path) const {
   this->GetModelParam(out_file);
 
   out_file.close();
+  if (!out_file) {
+    cerr << "write model to " << path << " failed\n";
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
diff --git a/src/sol/pario/file_writer.cc b/src/sol/pario/file_writer.cc
index d84a12f..13a7255 100755
--- a/src/sol/pario/file_writer.cc
+++ b/src/sol/pario/file_writer.cc
@@ -46,11 +46,22 @@ int FileWriter::Open(const char* path, const char* mode) {
   return Status_OK;
 }
 
-void FileWriter::Close() {
-  if (this->file_ != nullptr && this->file_ != stdout) {
-    fclose(this->file_);
+int FileWriter::Close() {
+  int ret = Status_OK;
+  if (this->file_ != nullptr) {
+    // buffered data may only be refused now
+    if (fflush(this->file_) != 0 || ferror(this->file_) != 0) {
+      ret = Status_IO_Error;
+    }
+    if (this->file_ != stdout && fclose(this->file_) != 0) {
+      ret = Status_IO_Error;
+    }
   }
   this->file_ = nullptr;
+  if (ret != Status_OK) {
+    fprintf(stderr, "Error %d: write file failed\n", ret);
+  }
+  return ret;
 }
 
 bool FileWriter::Good() {
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index bc24e56..0e47a96 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -95,7 +95,7 @@ int analyze(const string& src_path, const string& src_type,
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
   }
-  return ret;
+  return fw.Close();
 }
 
 int convert(const string& src_path, const string& src_type,
@@ -163,7 +163,7 @@ int convert(const string& src_path, const string& src_type,
     }
   }
   cout << data_num << " examples converted\n";
-  writer->Close();
+  ret = writer->Close();
   delete writer;
   return ret;
 }
@@ -215,7 +215,7 @@ int shuffle(const std::string& src_path, const std::string& src_type,
     writer->Write(*data);
     delete data;
   }
-  writer->Close();
+  ret = writer->Close();
   delete writer;
   return ret;
 }
@@ -278,8 +278,9 @@ int split(const string& src_path, const string& src_type, int fold_num,
       delete data_list[data_idx];
     }
     end_idx += data_split_num;
-    writer->Close();
+    ret = writer->Close();
     delete writer;
+    if (ret != Status_OK) break;
   }
   return ret;
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index a4345f8..ae3aca7 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -93,8 +93,9 @@ int main(int argc, char** argv) {
     }
   }
 
-  writer->Close();
+  ret = writer->Close();
   delete writer;
+  if (ret != Status_OK) return ret;
   cout << data_num << " examples concatenated to " << dst_path << "\n";
   return ret;
 }
-- 
2.43.0


From 1e9caf2a9f6c89db44642a11dfd6fac3580a332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:30 +0000
Subject: [PATCH 07/69] fix: write large feature indices as unsigned and report
 dimension 0 for data without features

---
 src/sol/pario/svm_writer.cc | 2 +-
 src/sol/tools.cc            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..e62a7d6 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -17,7 +17,7 @@ int SVMWriter::Write(const DataPoint &data) {
   size_t feat_num = data.indexes().size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return Status_OK;
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 0e47a96..3e790b7 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -86,7 +86,7 @@ int analyze(const string& src_path, const string& src_type,
   }
   fw.Printf("data number  : %lu\n", data_num);
   fw.Printf("feat number  : %lu\n", feat_num);
-  fw.Printf("dimension    : %lu\n", feat_dim - 1);
+  fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
   if (feat_dim > 0) {
-- 
2.43.0


From 1e05e3d595cf43667fcc47fbd49a958d5a09956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 08/69] fix: make sol_train report a model that could not be
 saved

---
 tools/sol_train.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4087431..14b8aaf 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -94,7 +94,8 @@ int train(cmdline::parser& parser) {
 
   // save model
   if (!output_path.empty()) {
-    model->Save(output_path);
+    ret = model->Save(output_path);
+    if (ret != Status_OK) return ret;
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-- 
2.43.0


From ebcd6e211049a1c9f91dad8255b6cfa0c3415ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:44 +0000
Subject: [PATCH 09/69] fix: return the loss from the uniform hinge gradient,
 so that learners update on it

---
 src/sol/loss/hinge_loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..2a654c6 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -137,7 +137,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
@@ -145,7 +145,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
       }
     }
   } else {
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
-- 
2.43.0


From 7871e6fe304a778e8637e2a649e3383a2c89143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:44 +0000
Subject: [PATCH 10/69] fix: uniform logistic loss is zero, not NaN, when no
 class outranks the label

---
 src/sol/loss/logistic_loss.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sol/loss/logistic_loss.cc b/src/sol/loss/logistic_loss.cc
index f5dacca..66e9de3 100644
--- a/src/sol/loss/logistic_loss.cc
+++ b/src/sol/loss/logistic_loss.cc
@@ -107,6 +107,7 @@ float UniformLogisticLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num < 1) return 0;
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
@@ -132,6 +133,10 @@ float UniformLogisticLoss::gradient(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num < 1) {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
-- 
2.43.0


From a49f11a2e8c3b6ae35f4832c03b0873f7e97cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:07 +0000
Subject: [PATCH 11/69] fix: initialise the heap with the top K of all
 elements, not the first K

---
 include/sol/util/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sol/util/heap.h b/include/sol/util/heap.h
index cdc7e57..c9f3be5 100644
--- a/include/sol/util/heap.h
+++ b/include/sol/util/heap.h
@@ -114,6 +114,8 @@ void Heap<comparator>::Init(index_t N, index_t K, const real_t* values) {
 
   this->values_ = values;
   this->BuildHeap();
+  // the first K elements are not necessarily the top K
+  for (index_t i = K; i < N; ++i) this->UpdateHeap(i);
 }
 
 template <typename comparator>
-- 
2.43.0


From b25d6657f3ad765197416cb2a46397864d32c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:17 +0000
Subject: [PATCH 12/69] fix: passive-aggressive update ignores examples without
 features instead of learning NaN

---
 src/sol/model/olm/pa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/olm/pa.cc b/src/sol/model/olm/pa.cc
index 4df3a33..d57e59a 100644
--- a/src/sol/model/olm/pa.cc
+++ b/src/sol/model/olm/pa.cc
@@ -19,7 +19,9 @@ PA::PA(int class_num) : OnlineLinearModel(class_num) {
 }
 void PA::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
-  this->eta_ = loss / (this->eta_coeff_ * Norm2(x));
+  real_t norm2 = Norm2(x);
+  if (norm2 == 0) return;  // no step along x can reduce the loss
+  this->eta_ = loss / (this->eta_coeff_ * norm2);
 
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
-- 
2.43.0


From 46e120deee41fee890b3b184f1460e7929f260ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:07 +0000
Subject: [PATCH 13/69] fix: second-order perceptron predicts with its bias
 during training

---
 src/sol/model/olm/sop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index d602163..1abe970 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -56,6 +56,8 @@ label_t SOP::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_ + L2(x));
+    // x does not contain the bias
+    w(c)[0] = v(c)[0] / (a_ + X_[0]);
   }
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
-- 
2.43.0


From 204bf8c8cd629b8b5c9133be37667c20d32da12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:20 +0000
Subject: [PATCH 14/69] fix: apply pending L1 shrinkage exactly once per step,
 to every class and to the bias at its own rate

---
 include/sol/model/regularizer.h |  5 ++++
 src/sol/model/olm/ada_fobos.cc  | 13 +++++++---
 src/sol/model/olm/ogd.cc        | 45 +++++++++++++++++++++------------
 src/sol/model/regularizer.cc    |  9 ++++---
 4 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..e176e16 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -77,6 +77,11 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
 
+  /// \brief  make room for the update times of dim coordinates
+  void update_dim(size_t dim);
+  /// \brief  record that every coordinate is regularized up to time t
+  void set_last_update_time(real_t t) { this->last_update_time_ = t; }
+
  protected:
   real_t initial_t_;
   // record the last update time of each dimension
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..8c89736 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -106,7 +106,9 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
         expr::truncate(w(c).slice(x), (eta_ * l1_.lambda()) *
                                           (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] =
+        expr::truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]) / H_[c][0]);
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -114,13 +116,18 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void AdaFOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.update_dim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias =
+        expr::truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]) / H_[c][0]);
     // trucate weights
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
-    // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = bias;
   }
+  l1_.set_last_update_time(t);
   AdaFOBOS::EndTrain();
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..61aa770 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -93,30 +93,37 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   size_t feat_num = x.size();
   int t = cur_iter_num_ - 1;
   float alpha = this->eta_ * l1_.lambda();
-  for (int c = 0; c < this->clf_num_; ++c) {
-    auto& w1 = w(c);
-    // trucate weights
-    for (size_t i = 0; i < feat_num; ++i) {
-      index_t idx = x.index(i);
-      int step = int(t - last_trunc_time_[idx]);
-      if (step < k_) continue;
-      step -= step % k_;
-      w1[idx] = truncate(w1[idx], step * alpha);
-      last_trunc_time_[idx] += step;
+  // trucate weights
+  for (size_t i = 0; i < feat_num; ++i) {
+    index_t idx = x.index(i);
+    int step = int(t - last_trunc_time_[idx]);
+    if (step < k_) continue;
+    step -= step % k_;
+    for (int c = 0; c < this->clf_num_; ++c) {
+      w(c)[idx] = truncate(w(c)[idx], step * alpha);
     }
-    // truncate bias
-    w1[0] = truncate(w1[0], l1_.lambda() * bias_eta());
-    last_trunc_time_[0] = real_t(t);
+    last_trunc_time_[idx] += step;
+  }
+  // truncate bias
+  float bias_alpha = l1_.lambda() * bias_eta() * (t - last_trunc_time_[0]);
+  for (int c = 0; c < this->clf_num_; ++c) {
+    w(c)[0] = truncate(w(c)[0], bias_alpha);
   }
+  last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
 void STG::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  float bias_alpha = l1_.lambda() * bias_eta() * (t - last_trunc_time_[0]);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias = truncate(w(c)[0], bias_alpha);
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
+    w(c)[0] = bias;
   }
+  last_trunc_time_ = t;
   OGD::EndTrain();
 }
 
@@ -149,7 +156,8 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
     w(c) = truncate(w(c).slice(x),
                     (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]));
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -157,12 +165,17 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.update_dim(this->dim_);
+  float bias_alpha =
+      bias_eta() * l1_.lambda() * (t - l1_.last_update_time()[0]);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias = truncate(w(c)[0], bias_alpha);
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
-    // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = bias;
   }
+  l1_.set_last_update_time(t);
   OGD::EndTrain();
 }
 
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..07a8511 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -65,10 +65,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->update_dim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::update_dim(size_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From 8487ecb14a9f0e740686feb19b19406f6a63031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 15/69] fix: rda-l1 learns from the first example instead of
 dividing by zero

---
 src/sol/model/olm/rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..cb18e41 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -108,7 +108,7 @@ RDA_L1::RDA_L1(int class_num) : RDA(class_num) { this->regularizer_ = &l1_; }
 
 label_t RDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t t = real_t(cur_iter_num_ - 1.f);
+  real_t t = real_t(cur_iter_num_ - 1 + 1e-20);
   real_t trunc_thresh = l1_.lambda() * t;
   eta_ = 1.f / (t * sigma_);
   for (int c = 0; c < this->clf_num_; ++c) {
-- 
2.43.0


From 1f2f9878965ef9bef19befa90833c86aef50db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 16/69] fix: adaptive dual averaging updates its bias during
 training

---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..6be84c9 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -61,7 +61,7 @@ void AdaRDA::Update(const pario::DataPoint& dp, const float*, float loss) {
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 }
 
@@ -254,7 +254,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
-- 
2.43.0


From 14caddd435896bdf73299ee4d5baf9fce665c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 17/69] fix: ada-rda-l1 predicts with the regularisation of the
 examples learned so far

---
 src/sol/model/olm/ada_rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 6be84c9..8ae975a 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -129,7 +129,7 @@ AdaRDA_L1::AdaRDA_L1(int class_num) : AdaRDA(class_num) {
 
 label_t AdaRDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t trunc_thresh = real_t(l1_.lambda() * cur_iter_num_);
+  real_t trunc_thresh = real_t(l1_.lambda() * (cur_iter_num_ - 1));
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
     w(c) = -eta_ * expr::truncate(ut_[c].slice(x), trunc_thresh) / H_[c];
-- 
2.43.0


From 7e25804a2f8bdd60f9d429fd7866eb6e3113ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 18/69] fix: fofs ranks features by their current weights

---
 src/sol/model/olm/fofs.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..6430bed 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -72,10 +72,10 @@ void FOFS::Update(const pario::DataPoint& dp, const float* predict,
 
   if (this->B_ > 0) {
     math::Vector<real_t>& abs_w = this->abs_weights_;
-    // update abosulte weights
-    abs_w = L1(w(0).slice(dp.data()));
+    // update abosulte weights, the scaling above changed all of them
+    abs_w = L1(w(0));
     for (int c = 1; c < this->clf_num_; ++c) {
-      abs_w += L1(w(c).slice(dp.data()));
+      abs_w += L1(w(c));
     }
 
     // update heap
-- 
2.43.0


From 2460eb9ffa391cc633217d4d61bd35129ed46368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:03 +0000
Subject: [PATCH 19/69] fix: element access to a constant matrix ignored the
 row

---
 include/sol/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..842ba3f 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -168,7 +168,7 @@ class Matrix
   inline DType& operator()(size_t x, size_t y) { return this->data(y)[x]; }
 
   inline const DType& operator()(size_t x, size_t y) const {
-    return this->data()[x];
+    return this->data(y)[x];
   }
 
   inline DType& operator[](size_t idx) { return this->storage_->begin()[idx]; }
-- 
2.43.0


From 0124e9048a524f103b52e20b9426a19463fd14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:03 +0000
Subject: [PATCH 20/69] fix: push_back of a vector's own element read freed
 memory

---
 include/sol/math/vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sol/math/vector.h b/include/sol/math/vector.h
index ff749f7..6b7361d 100644
--- a/include/sol/math/vector.h
+++ b/include/sol/math/vector.h
@@ -72,8 +72,10 @@ class Vector : public Matrix<DType> {
   ///
   /// \param elem Element to be pushed
   inline void push_back(const DType& elem) {
+    // elem may be an element of this vector
+    const DType val = elem;
     this->resize(this->size() + 1);
-    this->back() = elem;
+    this->back() = val;
   }
 
   /// \brief  Pop out the last element, work like a stack
-- 
2.43.0


From 814aa459dca16193c4da5cc3501bdc1b5f6acf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:03 +0000
Subject: [PATCH 21/69] fix: cloning or testing an empty data point
 dereferenced null

---
 include/sol/math/sparse_vector.h | 2 +-
 src/sol/pario/data_point.cc      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sol/math/sparse_vector.h b/include/sol/math/sparse_vector.h
index af2cea7..163d899 100644
--- a/include/sol/math/sparse_vector.h
+++ b/include/sol/math/sparse_vector.h
@@ -131,7 +131,7 @@ class SVector
     return this->values_ == nullptr ? empty_shape : this->values_->shape();
   }
 
-  inline bool empty() const { return this->values_->empty(); }
+  inline bool empty() const { return this->size() == 0; }
 
   /// accessing elements
   inline Vector<index_t>& indexes() { return *(this->indexes_); }
diff --git a/src/sol/pario/data_point.cc b/src/sol/pario/data_point.cc
index 71aa345..05c6ff6 100755
--- a/src/sol/pario/data_point.cc
+++ b/src/sol/pario/data_point.cc
@@ -19,6 +19,7 @@ void DataPoint::Clone(DataPoint &dst_pt) const {
   dst_pt.label_ = this->label_;
   dst_pt.Reserve(this->size());
   dst_pt.Resize(this->size());
+  if (this->size() == 0) return;
   memcpy(dst_pt.indexes().begin(), this->indexes().begin(),
          this->size() * sizeof(index_t));
   memcpy(dst_pt.features().begin(), this->features().begin(),
-- 
2.43.0


From 92045187cfdf30e1bca36d190897be47e6c6b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 22/69] fix: saving a trained model wrote weights that were not
 finalised

---
 include/sol/model/model.h | 2 +-
 src/sol/model/model.cc    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6bd32cc..6475631 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -82,7 +82,7 @@ class SOL_EXPORTS Model {
   /// \param path path to save the model
   ///
   /// \return status code, 0 if saved successfully
-  int Save(const std::string &path) const;
+  int Save(const std::string &path);
 
   /// \brief  load model from file
   ///
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 0971450..18287dc 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -157,7 +157,9 @@ void Model::BeginTrain() {
   this->require_reinit_ = false;
 }
 
-int Model::Save(const string& path) const {
+int Model::Save(const string& path) {
+  if (this->model_updated_) this->EndTrain();
+
   ofstream out_file(path.c_str(), ios::out);
   if (!out_file) {
     cerr << "open file " << path << " failed\n";
-- 
2.43.0


From db48d8902c1d7122151a568e116d2778bf2dc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 23/69] fix: active_smoothness below one was lost when a model
 was saved

---
 src/sol/model/online_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 94384bf..19715bd 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -204,7 +204,7 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
   root["online"]["t"] = this->cur_iter_num_;
   root["online"]["dim"] = this->dim_;
   root["online"]["lazy_update"] = this->lazy_update_ ? "true" : "false";
-  if (this->active_smoothness_ >= 1) {
+  if (this->active_smoothness_ > 0) {
     root["online"]["active_smoothness"] = this->active_smoothness_;
   }
   if (this->cost_sensitive_learning_) {
-- 
2.43.0


From 5771446089abf81ae7b110f8c2cb56bb4c266a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 24/69] fix: sparse_thresh was lost when a model was saved

---
 include/sol/model/regularizer.h | 2 ++
 src/sol/model/regularizer.cc    | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index e176e16..36c71ff 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -58,6 +58,8 @@ class SOL_EXPORTS OnlineL1Regularizer : public OnlineRegularizer {
 
   virtual void FinalizeRegularization(math::Vector<real_t> &w);
 
+  virtual void GetRegularizerInfo(Json::Value &root) const;
+
  protected:
   real_t sparse_thresh_;
 };
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index 07a8511..de0d729 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -41,6 +41,11 @@ int OnlineL1Regularizer::SetParameter(const std::string &name,
   return Status_OK;
 }
 
+void OnlineL1Regularizer::GetRegularizerInfo(Json::Value &root) const {
+  OnlineRegularizer::GetRegularizerInfo(root);
+  root["regularizer"]["sparse_thresh"] = this->sparse_thresh_;
+}
+
 void OnlineL1Regularizer::FinalizeRegularization(math::Vector<real_t> &w) {
   float thresh = this->sparse_thresh_;
   w.slice_op([thresh](real_t &val) {
-- 
2.43.0


From 1c67ce7b6a89036de6451afdd90e0b63af45ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 25/69] fix: a fofs model without feature selection could not
 be restored

---
 src/sol/model/olm/fofs.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 6430bed..2f6a178 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -24,8 +24,9 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     this->lambda_ = stof(value);
     Check(this->lambda_ >= 0);
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int B = stoi(value);
+    Check(B >= 0);
+    this->B_ = static_cast<index_t>(B);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From 7d97f002f669aaa6980dcc26325109e938e2570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:08 +0000
Subject: [PATCH 26/69] fix: stg and fobos-l1 regularised a restored model at
 the initial learning rate

---
 include/sol/model/olm/ogd.h | 1 +
 src/sol/model/olm/ogd.cc    | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/sol/model/olm/ogd.h b/include/sol/model/olm/ogd.h
index e300bcd..34a7473 100644
--- a/include/sol/model/olm/ogd.h
+++ b/include/sol/model/olm/ogd.h
@@ -20,6 +20,7 @@ class OGD : public OnlineLinearModel {
   OGD(int class_num);
 
   virtual void SetParameter(const std::string& name, const std::string& value);
+  virtual void BeginTrain();
 
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 61aa770..d326995 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -30,6 +30,14 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
     OnlineLinearModel::SetParameter(name, value);
   }
 }
+
+void OGD::BeginTrain() {
+  OnlineLinearModel::BeginTrain();
+  // learning rate reached so far, for regularization before the next update
+  int t = this->cur_iter_num_ > 0 ? this->cur_iter_num_ : 1;
+  this->eta_ = eta0_ / this->pow_(t, this->power_t_);
+}
+
 void OGD::Update(const pario::DataPoint& dp, const float*, float) {
   const auto& x = dp.data();
   eta_ = eta0_ / this->pow_(this->cur_iter_num_, this->power_t_);
-- 
2.43.0


From 8fabdc0c104a36c8a7863cf61b01ff5b5e9f9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:57 +0000
Subject: [PATCH 27/69] fix: restoring a model file cut in its header never
 returned

---
 src/sol/model/model.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 18287dc..cd79d71 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -198,13 +198,16 @@ Model* Model::Load(const string& path) {
   }
   if (ret == Status_OK) {
     ostringstream model_info;
-    while (line != "model parameters:") {
-      getline(in_file, line);
+    while (line != "model parameters:" && getline(in_file, line)) {
       model_info << line;
     }
+    if (line != "model parameters:") {
+      cerr << "no model parameters found in " << path << "\n";
+      ret = Status_Invalid_Format;
+    }
     Json::Value root;
     Json::Reader reader;
-    if (reader.parse(model_info.str(), root) == false) {
+    if (ret == Status_OK && reader.parse(model_info.str(), root) == false) {
       cerr << "parse model file " << path << " failed\n";
       ret = Status_Invalid_Format;
     }
-- 
2.43.0


From aecd088c4436fa3bb53d55e3137421614be92009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:57 +0000
Subject: [PATCH 28/69] fix: restoring a model file with a damaged header
 crashed

---
 src/sol/model/model.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index cd79d71..0fff627 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -213,20 +213,20 @@ Model* Model::Load(const string& path) {
     }
 
     if (ret == Status_OK) {
-      string cls_name = root.get("model", "").asString();
-      int cls_num = root.get("cls_num", "0").asInt();
-      model = Model::Create(cls_name, cls_num);
-      if (model == nullptr) {
-        cerr << "create model failed: no model named " << cls_name << "\n";
-        ret = Status_Invalid_Format;
-      } else {
-        try {
+      try {
+        string cls_name = root.get("model", "").asString();
+        int cls_num = root.get("cls_num", 0).asInt();
+        model = Model::Create(cls_name, cls_num);
+        if (model == nullptr) {
+          cerr << "create model failed: no model named " << cls_name << "\n";
+          ret = Status_Invalid_Format;
+        } else {
           ret = model->SetModelInfo(root);
         }
-        catch (invalid_argument& err) {
-          cerr << "set model parameter failed: " << err.what() << "\n";
-          ret = Status_Invalid_Argument;
-        }
+      }
+      catch (std::exception& err) {
+        cerr << "set model parameter failed: " << err.what() << "\n";
+        ret = Status_Invalid_Argument;
       }
     }
   }
-- 
2.43.0


From 3a0706dac4cf8e970a04a399b0a93c5edc6741c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:57 +0000
Subject: [PATCH 29/69] fix: a model file cut in its parameters was loaded in
 part

---
 src/sol/model/model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 0fff627..1b0fca4 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -233,6 +233,10 @@ Model* Model::Load(const string& path) {
 
   if (ret == Status_OK) {
     ret = model->SetModelParam(in_file);
+    if (ret == Status_OK && in_file.fail()) {
+      cerr << "incomplete model parameters in " << path << "\n";
+      ret = Status_Invalid_Format;
+    }
   }
   if (ret != Status_OK) {
     DeletePointer(model);
-- 
2.43.0


From 41695270ff433784db1035bc8547fd23ec8619a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:57 +0000
Subject: [PATCH 30/69] fix: a model file with a wrong class count or
 regularizer was loaded

---
 src/sol/model/online_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 19715bd..aac47a0 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -213,7 +213,8 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
 }
 
 int OnlineModel::SetModelInfo(const Json::Value& root) {
-  Model::SetModelInfo(root);
+  int ret = Model::SetModelInfo(root);
+  if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
   if (online_settings.isNull()) {
     cerr << "no online info found for online model\n";
-- 
2.43.0


From 895f803d54889e04d54866dad6a3cefeccd2b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:58 +0000
Subject: [PATCH 31/69] fix: reading a vector with too many values dropped the
 rest

---
 include/sol/math/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 842ba3f..8eec928 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -211,7 +211,8 @@ std::istream& operator>>(std::istream& is, Matrix<DType>& mat) {
   for (size_t i = 0; i < s2d[0]; ++i) {
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '[');
     for (size_t j = 0; j < s2d[1]; ++j) is >> *pdata++;
-    is.ignore((std::numeric_limits<std::streamsize>::max)(), ']');
+    char end = 0;
+    if (is >> end && end != ']') is.setstate(std::ios::failbit);
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '\n');
   }
   return is;
-- 
2.43.0


From c009e931c53420c85b30176843ca4f95215f0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 32/69] fix: a refused parameter value was kept by the model

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++----
 src/sol/model/olm/ada_rda.cc   | 10 ++++++----
 src/sol/model/olm/alma2.cc     | 18 ++++++++++++------
 src/sol/model/olm/fofs.cc      | 10 ++++++----
 src/sol/model/olm/ogd.cc       | 10 ++++++----
 src/sol/model/olm/rda.cc       | 10 ++++++----
 src/sol/model/online_model.cc  | 25 ++++++++++++++++---------
 7 files changed, 58 insertions(+), 35 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 8c89736..7fec42c 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -29,12 +29,14 @@ AdaFOBOS::~AdaFOBOS() { DeleteArray(this->H_); }
 
 void AdaFOBOS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 8ae975a..cbf5ae1 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -36,12 +36,14 @@ AdaRDA::~AdaRDA() {
 
 void AdaRDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 04d2587..b1088cb 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -38,16 +38,18 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
-    this->alpha_ = stof(value);
+    float alpha = stof(value);
+    Check(alpha > 0);
+    Check(alpha <= 1);
+    this->alpha_ = alpha;
     this->B_ = 1 / this->alpha_;
-    Check(alpha_ > 0);
-    Check(alpha_ <= 1);
     this->require_reinit_ = true;
   } else if (name == "C") {
     this->C_ = stof(value);
   } else if (name == "k") {
-    this->k_ = stoi(value);
-    Check(this->k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
@@ -56,8 +58,12 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
+    op::OpType norm_type = this->norm_type_;
     OnlineLinearModel::SetParameter(name, value);
-    Check(this->norm_type_ == op::OpType::kL2);
+    if (this->norm_type_ != op::OpType::kL2) {
+      this->norm_type_ = norm_type;
+      throw invalid_argument("only L2 norm is allowed");
+    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 2f6a178..5e2ee65 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -18,11 +18,13 @@ FOFS::~FOFS() {}
 
 void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else if (name == "lambda") {
-    this->lambda_ = stof(value);
-    Check(this->lambda_ >= 0);
+    float lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
   } else if (name == "B") {
     int B = stoi(value);
     Check(B >= 0);
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index d326995..2b7dcbe 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -24,8 +24,9 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   if (name == "power_t") {
     this->set_power_t(stof(value));
   } else if (name == "eta") {
-    this->eta0_ = stof(value);
-    Check(eta0_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta0_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -83,8 +84,9 @@ STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
-    this->k_ = stoi(value);
-    Check(k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
   } else {
     OGD::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index cb18e41..972b5b1 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -29,8 +29,9 @@ RDA::~RDA() { DeleteArray(this->ut_); }
 
 void RDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "sigma") {
-    this->sigma_ = stof(value);
-    Check(sigma_ > 0);
+    float sigma = stof(value);
+    Check(sigma > 0);
+    this->sigma_ = sigma;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -139,8 +140,9 @@ ERDA_L1::ERDA_L1(int class_num) : RDA(class_num), rou_(0.f) {
 
 void ERDA_L1::SetParameter(const std::string& name, const std::string& value) {
   if (name == "rou") {
-    this->rou_ = stof(value);
-    Check(rou_ >= 0);
+    float rou = stof(value);
+    Check(rou >= 0);
+    this->rou_ = rou;
   } else {
     RDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index aac47a0..52bb803 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -81,36 +81,43 @@ OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
 void OnlineModel::SetParameter(const std::string& name,
                                const std::string& value) {
   if (name == "bias_eta") {
-    this->bias_eta0_ = stof(value);
-    Check(bias_eta0_ >= 0);
+    float bias_eta = stof(value);
+    Check(bias_eta >= 0);
+    this->bias_eta0_ = bias_eta;
   } else if (name == "t") {
     this->set_initial_t(stoi(value));
     if (this->regularizer_ != nullptr) {
       this->regularizer_->SetParameter("t0", value);
     }
   } else if (name == "dim") {
-    this->update_dim(stoi(value));
+    int dim = stoi(value);
+    Check(dim >= 0);
+    this->update_dim(dim);
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-    this->active_smoothness_ = stof(value);
-    Check(active_smoothness_ > 0);
+    float active_smoothness = stof(value);
+    Check(active_smoothness > 0);
+    this->active_smoothness_ = active_smoothness;
   } else if (name == "cost_margin") {
     if (this->clf_num_ != 1) {
       throw invalid_argument(
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
-    this->cost_margin_ = stof(value);
-    Check(cost_margin_ > 0);
+    float cost_margin = stof(value);
+    Check(cost_margin > 0);
+    this->cost_margin_ = cost_margin;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
+    int base = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new ExpIterDisplayer(stoi(value));
+    this->iter_displayer_ = new ExpIterDisplayer(base);
   } else if (name == "step_show") {
+    int step = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new StepIterDisplayer(stoi(value));
+    this->iter_displayer_ = new StepIterDisplayer(step);
   } else {
     Model::SetParameter(name, value);
   }
-- 
2.43.0


From 4c0145fa88f2ebfe122649428086b2de88c14f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 33/69] fix: a refused loss function was kept by the model

---
 include/sol/model/model.h       |  7 +++++++
 src/sol/model/model.cc          | 36 ++++++++++++++++++++-------------
 src/sol/model/olm/alma2.cc      |  5 +----
 src/sol/model/olm/arow.cc       |  5 +----
 src/sol/model/olm/cw.cc         |  5 +----
 src/sol/model/olm/eccw.cc       |  5 +----
 src/sol/model/olm/perceptron.cc |  5 +----
 src/sol/model/olm/sop.cc        |  5 +----
 8 files changed, 35 insertions(+), 38 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6475631..c2e3b1c 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -131,6 +131,13 @@ class SOL_EXPORTS Model {
   virtual int SetModelInfo(const Json::Value &root);
 
  protected:
+  /// \brief  set the loss function
+  ///
+  /// \param name name of the loss function
+  /// \param type type that the loss function must be of, 0 if any is allowed.
+  /// An unsuitable loss function is refused, the model keeps its current one
+  void SetLoss(const std::string &name, int type = 0);
+
   /// \brief  calibrate labels
   ///
   /// \param x data point
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 1b0fca4..35ea9e4 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
+#include <memory>
 #include <string>
 
 #include "sol/util/util.h"
@@ -61,20 +62,7 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "clf_num") {
     Check(stoi(value) == this->clf_num());
   } else if (name == "loss") {
-    DeletePointer(this->loss_);
-    this->loss_ = loss::Loss::Create(value);
-    Check(this->loss_ != nullptr);
-    if (this->clf_num_ == 1 &&
-        ((this->loss_->type() & loss::Loss::Type::BC) == 0)) {
-      throw invalid_argument(
-          "onlye binary loss function can be used with binary problems");
-    } else if (this->clf_num_ != 1 &&
-               ((this->loss_->type() & loss::Loss::Type::MC) == 0)) {
-      throw invalid_argument(
-          "onlye multiclass loss function can be used with multiclass "
-          "problems");
-    }
-    this->require_reinit_ = true;
+    this->SetLoss(value);
   } else if (name == "norm") {
     int norm_val = -1;
     try {
@@ -114,6 +102,26 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void Model::SetLoss(const std::string& name, int type) {
+  unique_ptr<loss::Loss> loss(loss::Loss::Create(name));
+  Check(loss != nullptr);
+  if (this->clf_num_ == 1 && ((loss->type() & loss::Loss::Type::BC) == 0)) {
+    throw invalid_argument(
+        "onlye binary loss function can be used with binary problems");
+  } else if (this->clf_num_ != 1 &&
+             ((loss->type() & loss::Loss::Type::MC) == 0)) {
+    throw invalid_argument(
+        "onlye multiclass loss function can be used with multiclass "
+        "problems");
+  } else if (type != 0 && (loss->type() & type) == 0) {
+    throw invalid_argument("loss function " + name +
+                           " is not allowed for the model");
+  }
+  DeletePointer(this->loss_);
+  this->loss_ = loss.release();
+  this->require_reinit_ = true;
+}
+
 float Model::Test(DataIter& data_iter, std::ostream* os) {
   if (this->model_updated_) this->EndTrain();
 
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index b1088cb..44594f4 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -52,10 +52,7 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->k_ = k;
     this->require_reinit_ = true;
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     op::OpType norm_type = this->norm_type_;
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..b7c0dca 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -37,10 +37,7 @@ void AROW::SetParameter(const std::string& name, const std::string& value) {
   if (name == "r") {
     this->r_ = stof(value);
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index a0bdbbd..4149f17 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -45,10 +45,7 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
     this->phi_ = stof(value);
     this->require_reinit_ = true;
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 0e00119..af45560 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -46,10 +46,7 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
     this->set_phi(stof(value));
     this->require_reinit_ = true;
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::HINGE);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/perceptron.cc b/src/sol/model/olm/perceptron.cc
index 2082897..f2db610 100644
--- a/src/sol/model/olm/perceptron.cc
+++ b/src/sol/model/olm/perceptron.cc
@@ -25,10 +25,7 @@ Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
 void Perceptron::SetParameter(const std::string& name,
                               const std::string& value) {
   if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::BOOL);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index 1abe970..b4f094c 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -36,10 +36,7 @@ void SOP::SetParameter(const std::string& name, const std::string& value) {
   if (name == "a") {
     this->a_ = stof(value);
   } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
+    this->SetLoss(value, loss::Loss::Type::BOOL);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From 409be8a07b0d909fd468078ab4fa4f98a3773fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 34/69] fix: a negative number of features to select was
 accepted

---
 src/sol/model/olm/ada_fobos.cc | 1 +
 src/sol/model/olm/ada_rda.cc   | 1 +
 src/sol/model/olm/arow.cc      | 1 +
 src/sol/model/olm/ogd.cc       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 7fec42c..82316c7 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -152,6 +152,7 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B") {
+    Check(stoi(value) >= 0);
     AdaFOBOS::SetParameter("lambda", value);
   } else {
     AdaFOBOS::SetParameter(name, value);
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index cbf5ae1..4624230 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -171,6 +171,7 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B") {
+    Check(stoi(value) >= 0);
     AdaRDA::SetParameter("lambda", value);
   } else {
     AdaRDA::SetParameter(name, value);
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index b7c0dca..4aaf733 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -125,6 +125,7 @@ SOFS::~SOFS() {
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B") {
+    Check(stoi(value) >= 0);
     AROW::SetParameter("lambda", value);
   } else {
     AROW::SetParameter(name, value);
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 2b7dcbe..c1552d6 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -198,6 +198,7 @@ PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B") {
+    Check(stoi(value) >= 0);
     OGD::SetParameter("lambda", value);
   } else {
     OGD::SetParameter(name, value);
-- 
2.43.0


From d20b670bd964b39820b0b4d33f2de20acbfe3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 35/69] fix: a parameter value out of range ended the program

---
 src/sol/c_api.cc   | 2 +-
 tools/sol_test.cc  | 2 +-
 tools/sol_train.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 65ace7c..1e3773f 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -65,7 +65,7 @@ int sol_SetModelParameter(void* model, const char* param_name,
   try {
     m->SetParameter(param_name, param_val);
   }
-  catch (invalid_argument& err) {
+  catch (std::exception& err) {
     fprintf(stderr, "%s\n", err.what());
     return Status_Invalid_Argument;
   }
diff --git a/tools/sol_test.cc b/tools/sol_test.cc
index 520f845..a1bccfe 100644
--- a/tools/sol_test.cc
+++ b/tools/sol_test.cc
@@ -58,7 +58,7 @@ int test(cmdline::parser& parser) {
     try {
       model->SetParameter("filter", parser.get<string>("filter"));
     }
-    catch (invalid_argument& err) {
+    catch (std::exception& err) {
       fprintf(stderr, "%s\n", err.what());
       return Status_Invalid_Argument;
     }
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 14b8aaf..4c47624 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -71,7 +71,7 @@ int train(cmdline::parser& parser) {
       try {
         model->SetParameter(strip(opt_pair[0]), strip(opt_pair[1]));
       }
-      catch (invalid_argument& err) {
+      catch (std::exception& err) {
         fprintf(stderr, "%s\n", err.what());
         return Status_Invalid_Argument;
       }
-- 
2.43.0


From 92714644f7c44778e3febd6705c360e3fee9fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:38 +0000
Subject: [PATCH 36/69] fix: normalising an all-zero record made its features
 NaN

---
 src/sol/model/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 35ea9e4..8cbab75 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -323,11 +323,11 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        if (norm > 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm > 0) x.data() /= sqrt(norm);
       default:
         break;
     }
-- 
2.43.0


From cb09fa7b6354a74da5368cbe168206c38c980971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:38 +0000
Subject: [PATCH 37/69] fix: a bad feature selection file crashed or removed
 the current selection

---
 src/sol/model/model.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 8cbab75..5765929 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -346,16 +346,12 @@ void Model::FilterFeatures(DataPoint& x) {
 }
 
 int Model::LoadPreSelFeatures(const string& path) {
-  this->max_index_ = 0;
-  this->sel_feat_flags_.clear();
-
   ifstream in_file(path.c_str(), ios::in);
   if (!in_file) {
     cerr << "open file " << path << " failed\n!";
     return Status_IO_Error;
   }
 
-  index_t index = 0;
   string line;
   vector<index_t> indexes;
   // load feature indexes
@@ -365,12 +361,22 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
+    int index = 0;
+    try {
+      index = stoi(line);
+    }
+    catch (std::exception&) {
+      index = 0;
+    }
     if (index <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
-    indexes.push_back(index);
+    indexes.push_back(index_t(index));
+  }
+  if (indexes.empty()) {
+    cerr << "no feature selected in " << path << "!\n";
+    return Status_Invalid_Format;
   }
 
   // find the max index
-- 
2.43.0


From 15c720652a941cea465e8b12533a4251993a6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 38/69] fix: a model file without its regularizer settings was
 loaded

---
 src/sol/model/model.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 5765929..0e269a4 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -287,7 +287,11 @@ int Model::SetModelInfo(const Json::Value& root) {
 
   // regularizer
   const Json::Value& relu_settings = root["regularizer"];
-  if (!(relu_settings.isNull()) && this->regularizer_ != nullptr) {
+  if (this->regularizer_ != nullptr) {
+    if (relu_settings.isNull()) {
+      cerr << "no regularizer info found for the model\n";
+      return Status_Invalid_Format;
+    }
     for (Json::Value::const_iterator iter = relu_settings.begin();
          iter != relu_settings.end(); ++iter) {
       if (this->regularizer_->SetParameter(iter.name(), iter->asString()) !=
-- 
2.43.0


From 5298fa77861a22956021a5726ef9e2c3138b4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:27 +0000
Subject: [PATCH 39/69] fix: restoring a model joined the lines of its header

---
 src/sol/model/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 0e269a4..101d130 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -207,7 +207,7 @@ Model* Model::Load(const string& path) {
   if (ret == Status_OK) {
     ostringstream model_info;
     while (line != "model parameters:" && getline(in_file, line)) {
-      model_info << line;
+      model_info << line << "\n";
     }
     if (line != "model parameters:") {
       cerr << "no model parameters found in " << path << "\n";
-- 
2.43.0


From 5021a48bb3d2c0a7a2c54159349eec617440de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:08 +0000
Subject: [PATCH 40/69] fix: changing the number of features to select between
 trainings crashed

---
 src/sol/model/olm/ada_fobos.cc | 3 ++-
 src/sol/model/olm/ada_rda.cc   | 3 ++-
 src/sol/model/olm/arow.cc      | 3 ++-
 src/sol/model/olm/fofs.cc      | 3 +++
 src/sol/model/olm/ogd.cc       | 3 ++-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 82316c7..ef2d861 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -151,9 +151,10 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 }
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     Check(stoi(value) >= 0);
     AdaFOBOS::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AdaFOBOS::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 4624230..accaea0 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -170,9 +170,10 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 }
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     Check(stoi(value) >= 0);
     AdaRDA::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AdaRDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 4aaf733..5123a33 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -124,9 +124,10 @@ SOFS::~SOFS() {
 }
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     Check(stoi(value) >= 0);
     AROW::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AROW::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 5e2ee65..74a74e5 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -21,14 +21,17 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     float eta = stof(value);
     Check(eta >= 0);
     this->eta_ = eta;
+    this->require_reinit_ = true;
   } else if (name == "lambda") {
     float lambda = stof(value);
     Check(lambda >= 0);
     this->lambda_ = lambda;
+    this->require_reinit_ = true;
   } else if (name == "B") {
     int B = stoi(value);
     Check(B >= 0);
     this->B_ = static_cast<index_t>(B);
+    this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index c1552d6..78d807c 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -197,9 +197,10 @@ PET::PET(int class_num) : OGD(class_num) { this->regularizer_ = &(this->l0_); }
 PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     Check(stoi(value) >= 0);
     OGD::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     OGD::SetParameter(name, value);
   }
-- 
2.43.0


From 2b16094a67b768bfb8ae2a06dc5516cbf9e9e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 41/69] fix: array descriptions with numbers out of range were
 accepted or ended the program

---
 src/sol/pario/csr_matrix_reader.cc | 10 ++++++----
 src/sol/pario/numpy_reader.cc      | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sol/pario/csr_matrix_reader.cc b/src/sol/pario/csr_matrix_reader.cc
index bc3a93c..386db3e 100644
--- a/src/sol/pario/csr_matrix_reader.cc
+++ b/src/sol/pario/csr_matrix_reader.cc
@@ -42,12 +42,13 @@ int ParseAddr(T& dst, const std::string& src) {
   string::size_type sz = 0;
   try {
     string tmp = strip(src);
-    dst = (T)(stoll(tmp, &sz));
-    if (tmp[sz] != '\0') {
+    long long val = stoll(tmp, &sz);
+    dst = (T)(val);
+    if (tmp[sz] != '\0' || (long long)(dst) != val) {
       return Status_IO_Error;
     }
   }
-  catch (invalid_argument&) {
+  catch (std::exception&) {
     return Status_IO_Error;
   }
   return Status_OK;
@@ -71,7 +72,8 @@ int CsrMatrixReader::ParsePath(const std::string& path, int*& indices,
   ret = ParseAddr<double*>(y, parts[3]);
   if (ret != Status_OK) return ret;
   ret = ParseAddr<int>(n_samples, parts[4]);
-  return ret;
+  if (ret != Status_OK) return ret;
+  return n_samples >= 0 ? Status_OK : Status_IO_Error;
 }
 
 int CsrMatrixReader::Next(DataPoint& dst_data) {
diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index a10cbdf..f8681e7 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -40,12 +40,13 @@ int ParseAddr(T& dst, const std::string& src) {
   string::size_type sz = 0;
   try {
     string tmp = strip(src);
-    dst = (T)(stoll(tmp, &sz));
-    if (tmp[sz] != '\0') {
+    long long val = stoll(tmp, &sz);
+    dst = (T)(val);
+    if (tmp[sz] != '\0' || (long long)(dst) != val) {
       return Status_IO_Error;
     }
   }
-  catch (invalid_argument&) {
+  catch (std::exception&) {
     return Status_IO_Error;
   }
   return Status_OK;
@@ -68,7 +69,8 @@ int NumpyReader::ParsePath(const std::string& path, double*& x, double*& y,
   ret = ParseAddr<int>(cols, parts[3]);
   if (ret != Status_OK) return ret;
   ret = ParseAddr<int>(stride, parts[4]);
-  return ret;
+  if (ret != Status_OK) return ret;
+  return rows >= 0 && cols >= 0 ? Status_OK : Status_IO_Error;
 }
 
 int NumpyReader::Next(DataPoint& dst_data) {
-- 
2.43.0


From 9d0a43455f4ca869910c0f89a0af6a5db40162d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:53 +0000
Subject: [PATCH 42/69] Restore tools/sol_test.cc as it was

---
 tools/sol_test.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/sol_test.cc b/tools/sol_test.cc
index a1bccfe..520f845 100644
--- a/tools/sol_test.cc
+++ b/tools/sol_test.cc
@@ -58,7 +58,7 @@ int test(cmdline::parser& parser) {
     try {
       model->SetParameter("filter", parser.get<string>("filter"));
     }
-    catch (std::exception& err) {
+    catch (invalid_argument& err) {
       fprintf(stderr, "%s\n", err.what());
       return Status_Invalid_Argument;
     }
-- 
2.43.0


From 95663ff9ed9282d78553a318620772caac1026e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 43/69] fix: the Python model kept a pointer to its algorithm
 name but not the name

The name was read from freed memory once the caller's string, or the parameter
dictionary of load(), was gone.
---
 python/pysol.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index a191277..6271be9 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -45,7 +45,7 @@ cdef void inspect_iteration(void* user_context,
 cdef class SOL:
     cdef void* _c_model
     cdef void* _c_data_iter
-    cdef const char* algo
+    cdef object algo
     cdef int class_num
     cdef bint verbose
 
@@ -97,7 +97,7 @@ cdef class SOL:
 
     @property
     def name(self):
-        return <bytes>self.algo
+        return self.algo
 
     @property
     def n_classes(self):
-- 
2.43.0


From 80dfe155ac751d885b89a735f6242a380be84109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 44/69] fix: the Python model did not keep the learning handler
 alive

A handler nobody else referred to was called after it had been freed.
---
 python/pysol.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 6271be9..5ada4be 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -48,6 +48,7 @@ cdef class SOL:
     cdef object algo
     cdef int class_num
     cdef bint verbose
+    cdef object iterate_handler
 
     def  __cinit__(self, const char* algo = NULL, int class_num = -1, int
             batch_size=256, int buf_size = 2, verbose=False, **params):
@@ -141,6 +142,7 @@ cdef class SOL:
 
     def inspect_learning(self, iterate_handler):
         if self._c_model is not NULL:
+            self.iterate_handler = iterate_handler
             sol_InspectOnlineIteration(self._c_model, inspect_iteration, <void*>iterate_handler)
 
     def __load_data(self, param1, param2, int pass_num):
-- 
2.43.0


From 7bdbc74f1fada7706a53de5bee19d019998d25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 45/69] fix: Python arrays were read after being freed or with
 the wrong layout

The zero labels made for unlabelled data were freed before they were read, and
arrays whose columns or labels are not contiguous, and sparse matrices with
64-bit indices, were read as if they were contiguous 32-bit ones.
---
 python/pysol.pyx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 5ada4be..86efe3b 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -49,6 +49,7 @@ cdef class SOL:
     cdef int class_num
     cdef bint verbose
     cdef object iterate_handler
+    cdef object data_refs
 
     def  __cinit__(self, const char* algo = NULL, int class_num = -1, int
             batch_size=256, int buf_size = 2, verbose=False, **params):
@@ -167,9 +168,12 @@ cdef class SOL:
             assert param1.dtype == np.float64, "only float64 data are allowed"
             assert param2.dtype == np.float64, "only float64 labels are allowed"
             X = param1
-            y = param2
+            y = np.ascontiguousarray(param2)
 
             if isinstance(param1, np.ndarray):
+                X = np.ascontiguousarray(X)
+                # the arrays are read after this function returns
+                self.data_refs = (X, y)
                 ret = sol_loadArray(self._c_data_iter,
                         (<np.ndarray[np.float64_t, ndim=2, mode='c']>X).data,
                         (<np.ndarray[np.float64_t, ndim=1, mode='c']>y).data,
@@ -177,12 +181,16 @@ cdef class SOL:
                         (<np.ndarray[np.float64_t, ndim=2, mode='c']>X).strides,
                         pass_num)
             elif isinstance(param1, csr_matrix):
+                indices = np.ascontiguousarray(X.indices, dtype=np.int32)
+                indptr = np.ascontiguousarray(X.indptr, dtype=np.int32)
+                features = np.ascontiguousarray(X.data)
+                self.data_refs = (indices, indptr, features, y)
                 ret= sol_loadCsrMatrix(self._c_data_iter,
-                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>X.indices).data,
-                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>X.indptr).data,
-                        (<np.ndarray[np.float64_t, ndim=1, mode='c']>X.data).data,
+                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>indices).data,
+                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>indptr).data,
+                        (<np.ndarray[np.float64_t, ndim=1, mode='c']>features).data,
                         (<np.ndarray[np.float64_t, ndim=1, mode='c']>y).data,
-                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>X.indptr).shape[0] - 1,
+                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>indptr).shape[0] - 1,
                         pass_num)
             else:
                 raise TypeError("only data path or numpy.ndarray or csr_matrix are allowed")
-- 
2.43.0


From b9943d9fbc569c0efb5a5fd7f6cb5d5b29c20b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 46/69] fix: loading a model into a Python object leaked its
 previous model

---
 python/pysol.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 86efe3b..84601ba 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -328,6 +328,8 @@ cdef class SOL:
         -------
         (SOL): Returns self
         """
+        if self._c_model is not NULL:
+            sol_ReleaseModel(&self._c_model)
         self._c_model = sol_RestoreModel(model_path)
         if self._c_model is not NULL:
             params = self.get_params()
-- 
2.43.0


From 38e8959e5c51ee93f1fec454def26b5bbb6ea946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 47/69] fix: get_params of a Python object without a model
 crashed

---
 python/pysol.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 84601ba..8b91311 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -137,6 +137,8 @@ cdef class SOL:
         -------
         dict: mapping of string to string
         """
+        assert self._c_model is not NULL, "model is not initialized"
+
         params = dict()
         sol_GetModelParameters(self._c_model, get_parameter, <void*>params)
         return params
-- 
2.43.0


From e2f326b58c53234791237341bc2e7af395a60c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:52 +0000
Subject: [PATCH 48/69] fix: splitting a data set in its own format mixed folds
 of different splits

Without a target type the folds on disk were looked up under the name of no
type, so surplus folds of an earlier split stayed and were taken for current
ones later.
---
 python/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dataset.py b/python/dataset.py
index 488e4b3..dfb019c 100755
--- a/python/dataset.py
+++ b/python/dataset.py
@@ -132,10 +132,10 @@ class DataSet(object):
         output_prefix = os.path.join(self.work_dir, self.data_name + ".split.")
         is_exist = True
         for i in xrange(split_num):
-            if not os.path.exists('%s%d.%s' %(output_prefix, i, tgt_type)):
+            if not os.path.exists('%s%d.%s' %(output_prefix, i, self.slice_type)):
                 is_exist = False
 
-        extra_file = '%s%d.%s' %(output_prefix, split_num, tgt_type)
+        extra_file = '%s%d.%s' %(output_prefix, split_num, self.slice_type)
         if os.path.exists(extra_file):
             is_exist = False
             #remove this file
-- 
2.43.0


From a1eca5d786cc30702c13ab6cee8b753be291e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:52 +0000
Subject: [PATCH 49/69] fix: making the binary copy of a data set failed in its
 log message

---
 python/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dataset.py b/python/dataset.py
index dfb019c..4122082 100755
--- a/python/dataset.py
+++ b/python/dataset.py
@@ -83,7 +83,7 @@ class DataSet(object):
             cache_path = os.path.join(self.work_dir, self.data_name + '.bin')
             if os.path.exists(cache_path):
                 return cache_path
-            logging.info('convert data %s to ' %(self.data_path, cache_path))
+            logging.info('convert data %s to %s' %(self.data_path, cache_path))
             if pysol.convert_data(self.data_path, self.dtype, cache_path, 'bin') != 0:
                 sys.exit()
             return cache_path
-- 
2.43.0


From e5a6177328624cbd29e78efc4e23bb5a6946b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:52 +0000
Subject: [PATCH 50/69] fix: reusing a cross validation object added the old
 mean to the new one

---
 python/cv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/cv.py b/python/cv.py
index 664a397..6f07409 100755
--- a/python/cv.py
+++ b/python/cv.py
@@ -135,8 +135,8 @@ class CV(object):
             self.val_scores[:, val_fold_id] = val_accu_list
 
         #calculate the average
-        self.train_scores[:, self.fold_num] = np.sum(self.train_scores, axis=1) / self.fold_num
-        self.val_scores[:, self.fold_num] = np.sum(self.val_scores, axis=1) / self.fold_num
+        self.train_scores[:, self.fold_num] = np.sum(self.train_scores[:, :self.fold_num], axis=1) / self.fold_num
+        self.val_scores[:, self.fold_num] = np.sum(self.val_scores[:, :self.fold_num], axis=1) / self.fold_num
 
     def __train_val_one_fold(self, model_name, val_fold_id):
         """ cross validation on one fold of data
-- 
2.43.0


From 3ce19eb53ac8a272e43035b14a9494215718d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:52 +0000
Subject: [PATCH 51/69] fix: training changed the caller's, or the default,
 parameters

The best parameters of one cross validation were passed to every later training
that used the same or the default dictionary.
---
 python/sol_train.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/sol_train.py b/python/sol_train.py
index de9323b..1cb734e 100644
--- a/python/sol_train.py
+++ b/python/sol_train.py
@@ -48,6 +48,8 @@ def train(dt, model_name,
     tuple(train accuracy, train time, model)
     """
 
+    model_params = dict(model_params)
+
     if cv_params != None:
         cv_output_path = osp.join(dt.work_dir, 'cv-%s.txt' % (model_name))
         if osp.exists(cv_output_path) and retrain == False:
@@ -142,6 +144,8 @@ def finetune(dt, model_path,
     logging.info("finetnue model from %s ..." % (model_path))
     logging.info("parameter settings: %s" % (model_params))
 
+    model_params = dict(model_params)
+
     init_params = {}
     if 'batch_size' in model_params:
         init_params['batch_size'] = model_params['batch_size']
-- 
2.43.0


From 64c1c09effcd18dcca216ed749e0cf7ba0f657c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 52/69] fix: a model file with a section of another type was
 loaded without it

---
 src/sol/model/model.cc        | 2 +-
 src/sol/model/online_model.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 101d130..88359f5 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -288,7 +288,7 @@ int Model::SetModelInfo(const Json::Value& root) {
   // regularizer
   const Json::Value& relu_settings = root["regularizer"];
   if (this->regularizer_ != nullptr) {
-    if (relu_settings.isNull()) {
+    if (relu_settings.isObject() == false) {
       cerr << "no regularizer info found for the model\n";
       return Status_Invalid_Format;
     }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 52bb803..30ce923 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -223,7 +223,7 @@ int OnlineModel::SetModelInfo(const Json::Value& root) {
   int ret = Model::SetModelInfo(root);
   if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
-  if (online_settings.isNull()) {
+  if (online_settings.isObject() == false) {
     cerr << "no online info found for online model\n";
     return Status_Invalid_Format;
   }
-- 
2.43.0


From d4bde4afc98ff209463a8169437950eb4b752a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 53/69] fix: the Python model did not report a failed save

---
 python/pysol.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 8b91311..011aee2 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -316,7 +316,8 @@ cdef class SOL:
             path to save the model
         """
         assert self._c_model is not NULL, "model is not initialized"
-        sol_SaveModel(self._c_model, model_path)
+        if sol_SaveModel(self._c_model, model_path) != 0:
+            raise RuntimeError('save model failed')
 
     def load(self, const char* model_path):
         """Load a model from file
-- 
2.43.0


From b381f2709b1dcc27187d633b9a0b8bbdeaf49dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 54/69] fix: binarising a data set reused the result of another
 threshold

---
 python/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dataset.py b/python/dataset.py
index 4122082..ee51e2b 100755
--- a/python/dataset.py
+++ b/python/dataset.py
@@ -101,7 +101,7 @@ class DataSet(object):
             return dst_path
 
     def binarize(self, dtype, thresh):
-          dst_path = os.path.join(self.work_dir, self.data_name + '-binary.' + dtype)
+          dst_path = os.path.join(self.work_dir, self.data_name + '-binary-%r.%s' %(thresh, dtype))
           if os.path.exists(dst_path):
               return dst_path
           logging.info('binary[thresh=%f] data %s to %s' %(thresh, self.data_path, dst_path))
-- 
2.43.0


From fb173b38d33b4c896d683aa13295c891c2ee3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:58 +0000
Subject: [PATCH 55/69] fix: batch or buffer sizes below one hung or crashed
 the iterator

DataIter::AddReader now refuses them with Status_Invalid_Argument.
---
 include/sol/pario/data_iter.h |  2 ++
 src/sol/pario/data_iter.cc    | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sol/pario/data_iter.h b/include/sol/pario/data_iter.h
index 231b005..ea7d271 100755
--- a/include/sol/pario/data_iter.h
+++ b/include/sol/pario/data_iter.h
@@ -51,6 +51,8 @@ class SOL_EXPORTS DataIter {
  protected:
   // mini-batch size
   int batch_size_;
+  // number of mini-batches in buffer
+  int batch_num_;
   // factory to store not used mini batches
   BlockQueue<MiniBatch*> mini_batch_factory_;
   // mini-batch number in buffer
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index 4f11c06..deadb3a 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -15,9 +15,10 @@ namespace sol {
 namespace pario {
 DataIter::DataIter(int batch_size, int batch_num)
     : batch_size_(batch_size),
-      mini_batch_factory_(batch_num),
-      mini_batch_buf_(batch_num) {
-  for (int i = 0; i < batch_num; ++i) {
+      batch_num_(batch_num),
+      mini_batch_factory_(batch_num > 0 ? batch_num : 1),
+      mini_batch_buf_(batch_num > 0 ? batch_num : 1) {
+  for (int i = 0; batch_size > 0 && i < batch_num; ++i) {
     this->mini_batch_factory_.Enqueue(new MiniBatch(batch_size));
   }
   // signal to start next reader
@@ -63,6 +64,11 @@ DataIter::~DataIter() {
 int DataIter::AddReader(const std::string& path, const std::string& dtype,
                         int pass_num) {
   int ret = Status_OK;
+  if (this->batch_size_ <= 0 || this->batch_num_ <= 0) {
+    fprintf(stderr, "size (%d) and number (%d) of mini-batches must be positive\n",
+            this->batch_size_, this->batch_num_);
+    return Status_Invalid_Argument;
+  }
   shared_ptr<DataReadTask> reader(new DataReadTask(
       path, dtype, this->mini_batch_factory_, this->mini_batch_buf_, pass_num));
   if (reader->Good()) {
-- 
2.43.0


From a614af310fcf507d4b42cb3539b38b88ab920729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:58 +0000
Subject: [PATCH 56/69] fix: sol_train ignored its option --dim

---
 tools/sol_train.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4c47624..9741a76 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -60,6 +60,16 @@ int train(cmdline::parser& parser) {
   }
   if (model == nullptr) return Status_Invalid_Argument;
 
+  if (parser.exist("dim")) {
+    try {
+      model->SetParameter("dim", parser.get<string>("dim"));
+    }
+    catch (std::exception& err) {
+      fprintf(stderr, "%s\n", err.what());
+      return Status_Invalid_Argument;
+    }
+  }
+
   const string& model_params = parser.get<string>("params");
   if (model_params.length() > 0) {
     for (const string& opt : split(model_params, ';')) {
-- 
2.43.0


From f240d72a8d9dada2a4b5b6a80b96c540e52cd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:58 +0000
Subject: [PATCH 57/69] fix: splitting into less than one fold wrote nothing
 and reported success

---
 src/sol/tools.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 3e790b7..a9d25ff 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -222,6 +222,10 @@ int shuffle(const std::string& src_path, const std::string& src_type,
 
 int split(const string& src_path, const string& src_type, int fold_num,
           const string& output_prefix, const string& dst_type, bool shuffle) {
+  if (fold_num < 1) {
+    fprintf(stderr, "number of folds (%d) must be positive\n", fold_num);
+    return Status_Invalid_Argument;
+  }
   DataIter iter;
   int ret = iter.AddReader(src_path, src_type);
   if (ret != Status_OK) return ret;
-- 
2.43.0


From cbce1e250dffbc257042ea906898dc026385cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:00 +0000
Subject: [PATCH 58/69] fix: lsol_c printed error rates as accuracies

sol_Train and sol_Test return error rates (the Python class relies on it);
their description said otherwise.
---
 include/sol/c_api.h | 4 ++--
 tools/lsol_c.cc     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sol/c_api.h b/include/sol/c_api.h
index d832205..32cf3b5 100644
--- a/include/sol/c_api.h
+++ b/include/sol/c_api.h
@@ -112,7 +112,7 @@ SOL_EXPORTS void sol_GetModelParameters(void* model,
 /// \param model model to be trained
 /// \param data_iter data iterator
 ///
-/// \return training accuracy
+/// \return training error rate
 SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 
 /// \brief  test a model
@@ -122,7 +122,7 @@ SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 /// \param output_path path to save the predicted results, if no need, leave it
 /// empty
 ///
-/// \return test accuracy
+/// \return test error rate
 SOL_EXPORTS float sol_Test(void* model, void* data_iter,
                            const char* output_path);
 
diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 9c67472..acc6a1a 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -90,8 +90,8 @@ int train(cmdline::parser& parser) {
   }
 
   if (ret == Status_OK) {
-    float accu = sol_Train(model, data_iter);
-    fprintf(stdout, "training accuracy: %.4f\n", accu);
+    float err_rate = sol_Train(model, data_iter);
+    fprintf(stdout, "training accuracy: %.4f\n", 1.f - err_rate);
 
     // save model
     if (parser.exist("output")) {
@@ -134,8 +134,8 @@ int test(cmdline::parser& parser) {
       output_path = parser.get<string>("output").c_str();
     }
 
-    float accu = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", accu);
+    float err_rate = sol_Test(model, data_iter, output_path);
+    fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0


From cfeeaa5883990f0fd8f28b3b4bafcdb79a883baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:00 +0000
Subject: [PATCH 59/69] fix: lsol_c crashed when testing a model it could not
 load with --filter

---
 tools/lsol_c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index acc6a1a..ff40705 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -116,7 +116,7 @@ int test(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
-  if (parser.exist("filter")) {
+  if (ret == Status_OK && parser.exist("filter")) {
     ret = sol_SetModelParameter(model, "filter",
                                 parser.get<string>("filter").c_str());
   }
-- 
2.43.0


From 48146002073ec9d1b619855761a8eb8657ea8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:00 +0000
Subject: [PATCH 60/69] fix: lsol_c ignored its option --dim

---
 tools/lsol_c.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index ff40705..052877b 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -62,6 +62,11 @@ int train(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
+  if (ret == Status_OK && parser.exist("dim")) {
+    ret = sol_SetModelParameter(model, "dim",
+                                parser.get<string>("dim").c_str());
+  }
+
   if (ret == Status_OK) {
     const string& model_params = parser.get<string>("params");
     if (model_params.length() > 0) {
-- 
2.43.0


From 2b97367b81299c2f31f4178f2bf5c7ccadd22c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:00 +0000
Subject: [PATCH 61/69] fix: experiments failed for algorithm names with
 upper-case letters

---
 experiments/experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment.py b/experiments/experiment.py
index fcb818a..6c579d3 100755
--- a/experiments/experiment.py
+++ b/experiments/experiment.py
@@ -192,11 +192,12 @@ def exp_ol(dtrain, dtest,
         if algo != 'liblinear' and algo != 'vw':
             train_log[algo] = [None for i in xrange(repeat)]
 
+    lower_opts = dict((algo.lower(), opt) for algo, opt in opts.iteritems())
     for rid in xrange(repeat):
         logging.info('random pass %d', rid)
         dtrain.rand_path(force=True)
         for algo in retrains:
-            opt = opts[algo]
+            opt = lower_opts[algo]
             if (algo in res) and (algo not in retrains):
                 continue
             algo_res = run_ol(dtrain, dtest,
@@ -241,7 +242,7 @@ def exp_ol(dtrain, dtest,
     algo_list = []
 
     for algo, opt in opts.iteritems():
-        if algo == 'liblinear' or algo == 'vw':
+        if algo.lower() == 'liblinear' or algo.lower() == 'vw':
             continue
         log = train_log[algo.lower()]
         algo_list.append(algo)
-- 
2.43.0


From 1dcaa0e3b76350cb9d00dcfbd4383625a6e68bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:00 +0000
Subject: [PATCH 62/69] fix: experiments evaluated cached results with the
 wrong number of repetitions

---
 experiments/experiment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experiments/experiment.py b/experiments/experiment.py
index 6c579d3..00a14ed 100755
--- a/experiments/experiment.py
+++ b/experiments/experiment.py
@@ -220,9 +220,9 @@ def exp_ol(dtrain, dtest,
     print line
     line = '{0: <12}{1:<16}{2:<16}{1:<16}{2:<15}'.format('', 'accuracy', 'time(s)')
     print line
-    ddof = 1 if repeat > 1 else 0
     for algo, opt in opts.iteritems():
         vals = res[algo.lower()]
+        ddof = 1 if len(vals) > 1 else 0
         ave_vals = np.average(vals, axis=0)
         std_vals = np.std(vals, axis=0, ddof=ddof)
         line = '{0: <12}{1:.4f}+/-{2:.4f} \
@@ -249,11 +249,11 @@ def exp_ol(dtrain, dtest,
         data_nums.append(log[0][:,0].astype(np.int))
         ave_update_nums = np.zeros(log[0][:,2].shape)
         ave_error_rates = np.zeros(log[0][:,3].shape)
-        for rid in xrange(repeat):
+        for rid in xrange(len(log)):
             ave_update_nums = ave_update_nums + log[rid][:,2]
             ave_error_rates = ave_error_rates + log[rid][:,3]
-        error_rates.append(ave_error_rates / repeat)
-        update_nums.append(ave_update_nums / repeat)
+        error_rates.append(ave_error_rates / len(log))
+        update_nums.append(ave_update_nums / len(log))
 
     fig.plot(data_nums,
              error_rates,
-- 
2.43.0


From d3bc31e4ffffea17935cdb084c2c4cd206bfe914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:29 +0000
Subject: [PATCH 63/69] fix: feature selection without a limit was run with the
 previous limit

---
 ofs/fs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ofs/fs.py b/ofs/fs.py
index 1802cf9..cd1cbea 100644
--- a/ofs/fs.py
+++ b/ofs/fs.py
@@ -77,15 +77,16 @@ def run_fs(dtrain, dtest, algo, opts, fold_num, cv_process_num):
             feat_num, test_accu, test_time, train_accu, train_time = \
                     mrmr.train_test(dtrain, dtest, True, **model_params)
         else:
+            params = model_params.copy()
             if val > 0:
                 if fs_task == 'sol':
-                    model_params['lambda'] = val
+                    params['lambda'] = val
                 else:
-                    model_params['B'] = val
+                    params['B'] = val
             test_accu, test_time, train_accu, train_time, m = sol_train.train_test(
                 dtrain, dtest,
                 model_name=algo,
-                model_params=model_params,
+                model_params=params,
                 cv_params=cv_params,
                 fold_num=fold_num,
                 cv_process_num=cv_process_num)
-- 
2.43.0


From 215981c887046e582eb9ad836b55872950428db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:29 +0000
Subject: [PATCH 64/69] fix: the number of selected features was truncated, one
 too low for many sparsities

---
 ofs/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ofs/fs.py b/ofs/fs.py
index cd1cbea..596cd8c 100644
--- a/ofs/fs.py
+++ b/ofs/fs.py
@@ -91,7 +91,7 @@ def run_fs(dtrain, dtest, algo, opts, fold_num, cv_process_num):
                 fold_num=fold_num,
                 cv_process_num=cv_process_num)
 
-            feat_num = int((1-m.sparsity) * dtrain.dim)
+            feat_num = int(round((1-m.sparsity) * dtrain.dim))
 
         logging.info("non-zero feature number: %d", feat_num)
 
-- 
2.43.0


From c67b1dd2f6334c0e4e19aa9035a79c52378f020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:29 +0000
Subject: [PATCH 65/69] fix: liblinear experiments failed if the test data had
 fewer features

---
 experiments/liblinear.py | 2 +-
 ofs/liblinear.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/liblinear.py b/experiments/liblinear.py
index 081dd08..730acb1 100644
--- a/experiments/liblinear.py
+++ b/experiments/liblinear.py
@@ -84,7 +84,7 @@ def train_test_l2(dtrain, dtest,
     #check dimensions
     if x_test.shape[1] < x_train.shape[1]:
         x_test = x_test.toarray()
-        pad = np.zeros((x_test.shape[0],x_train.shape[1] - x_train.shape[1]))
+        pad = np.zeros((x_test.shape[0],x_train.shape[1] - x_test.shape[1]))
         x_test = csr_matrix(np.concatenate((x_test, pad), axis=1))
     elif x_test.shape[1] > x_train.shape[1]:
         x_test = x_test[:,0:x_train.shape[1]]
diff --git a/ofs/liblinear.py b/ofs/liblinear.py
index 081dd08..730acb1 100644
--- a/ofs/liblinear.py
+++ b/ofs/liblinear.py
@@ -84,7 +84,7 @@ def train_test_l2(dtrain, dtest,
     #check dimensions
     if x_test.shape[1] < x_train.shape[1]:
         x_test = x_test.toarray()
-        pad = np.zeros((x_test.shape[0],x_train.shape[1] - x_train.shape[1]))
+        pad = np.zeros((x_test.shape[0],x_train.shape[1] - x_test.shape[1]))
         x_test = csr_matrix(np.concatenate((x_test, pad), axis=1))
     elif x_test.shape[1] > x_train.shape[1]:
         x_test = x_test[:,0:x_train.shape[1]]
-- 
2.43.0


From f129cade022a885406037c06ac265cfc3397b151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:29 +0000
Subject: [PATCH 66/69] fix: conversion to the vw format failed on samples
 without features

---
 experiments/vw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/vw.py b/experiments/vw.py
index 13a61b9..c2fceaf 100644
--- a/experiments/vw.py
+++ b/experiments/vw.py
@@ -32,7 +32,7 @@ def convert_to_vw(input_path, output_path, class_num=2):
                 if len(line) == 0:
                     break
                 pos = 0
-                while line[pos] != ' ' and line[pos] != '\t':
+                while pos < len(line) and line[pos] != ' ' and line[pos] != '\t':
                     pos = pos + 1
 
                 label = int(line[0:pos])
-- 
2.43.0


From c5db318931206d2d85d687731b1f01b357a1706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 67/69] fix: the webspam experiment used search ranges it did
 not define

---
 experiments/opts/webspam.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/experiments/opts/webspam.py b/experiments/opts/webspam.py
index 58fde81..2fb868f 100644
--- a/experiments/opts/webspam.py
+++ b/experiments/opts/webspam.py
@@ -6,6 +6,11 @@
 #################################################################################
 import numpy as np
 
+const_eta_search = np.logspace(-5, 5, 11, base=2)
+eta_search = np.logspace(-2, 8, 11, base=2)
+delta_search = np.logspace(-5, 5,11, base=2)
+r_search = np.logspace(-5, 5, 11, base=2)
+
 ol_opts = {}
 ol_opts['ada-fobos'] = {
     'cv':{'eta':const_eta_search, 'delta':delta_search}
-- 
2.43.0


From d50ec1367dcc9c97cb5b0581b5fc98e4d30edbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 68/69] fix: an example that active learning does not query is
 regularised once

The prediction of fobos-l1 and ada-fobos-l1 truncates the weights up to the
current step; for an example that was not queried the step was not recorded,
so that the same truncation was applied again with every further example.
---
 src/sol/model/online_linear_model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index 7cb3a03..1507939 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -69,6 +69,10 @@ label_t OnlineLinearModel::Iterate(const DataPoint& dp, float* predicts) {
     }
     float prob = active_smoothness_ / (active_smoothness_ + margin);
     if (prob < dis(gen)) {
+      // the prediction has regularized the weights up to now
+      if (this->regularizer_ != nullptr) {
+        this->online_regularizer()->EndIterate(dp, this->cur_iter_num_);
+      }
       --this->cur_iter_num_;
       return label;
     }
-- 
2.43.0


From 5348112902f29d9f2e0a872329f7bcd74556790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:31 +0000
Subject: [PATCH 69/69] fix: a text line cut short by a read error is not a
 record

The end of a long line was taken for reached when reading it failed, and
after an error reading went on in the middle of a line.
---
 src/sol/pario/file_reader.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 038cbb4..735efb7 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -96,6 +96,8 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
         "ReadLine can only be called when only file is opened with `text` "
         "mode.\n");
   }
+  // an earlier error lasts until the file is rewound
+  if (this->Good() == false) return Status_IO_Error;
   int len(0);
   if (fgets(dst, dst_len, this->file_) == nullptr) {
     if (feof(this->file_)) {
@@ -109,7 +111,11 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
     dst_len *= 2;
     dst = (char*)realloc(dst, dst_len);
     len = int(strlen(dst));
-    if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;
+    if (fgets(dst + len, dst_len - len, this->file_) == nullptr) {
+      if (feof(this->file_)) break;
+      fprintf(stderr, "Error %d: read line failed\n", Status_IO_Error);
+      return Status_IO_Error;
+    }
   }
   return Status_OK;
 }
-- 
2.43.0

