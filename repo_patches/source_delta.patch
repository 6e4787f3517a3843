From b68a13e25c002949dbf3445e9dc42e700ad86606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 01/42] fix: reading a .pun file that ends inside a coefficient
 block looped forever

---
 src/libcatnip/io/file_readers/punreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..dd03bec 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -76,7 +76,7 @@ void PunReader::ReadCoef(const string &orb_type) {
     getline(fid_, line);
     vector<double> row;
     size_t current_count = 0;
-    while (!foundSubStrInStr(line, pattern)) {
+    while (fid_ && !foundSubStrInStr(line, pattern)) {
 
       if (first_row_set && current_count >= count) break;
       auto coef = readGausCoefLine(line);
@@ -90,7 +90,7 @@ void PunReader::ReadCoef(const string &orb_type) {
     count = row.size();
     v_vec.push_back(row);
 
-    allCoefsRead = !(foundSubStrInStr(line, orb_type));
+    allCoefsRead = !fid_ || !(foundSubStrInStr(line, orb_type));
   }
 
   Matrix *Coefs = new Matrix(v_vec);
-- 
2.43.0


From bde63b7af665b3c7d8c9b1bb2e9b3ffb1df7bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 02/42] fix: beta coefficients directly after the alpha ones in
 a .pun file were lost

---
 src/libcatnip/io/file_readers/punreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index dd03bec..28b5b21 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,6 +73,7 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool allCoefsRead = false;
   while (!allCoefsRead) {
     string line;
+    streampos line_start = fid_.tellg();
     getline(fid_, line);
     vector<double> row;
     size_t current_count = 0;
@@ -84,6 +85,7 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
+      line_start = fid_.tellg();
       getline(fid_, line);
     }
     first_row_set = true;
@@ -91,6 +93,8 @@ void PunReader::ReadCoef(const string &orb_type) {
     v_vec.push_back(row);
 
     allCoefsRead = !fid_ || !(foundSubStrInStr(line, orb_type));
+    // The line that ended this block may be the header of the next section
+    if (allCoefsRead && fid_) fid_.seekg(line_start);
   }
 
   Matrix *Coefs = new Matrix(v_vec);
-- 
2.43.0


From fca2406fdfec95ce27253f75c027b45c2363a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 03/42] fix: three digit exponents in a .pun file were misread

---
 src/libcatnip/io/file_readers/punreader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 28b5b21..3ac585c 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -52,7 +52,12 @@ vector<double> PunReader::readGausCoefLine(const string &line) {
     string str = line.substr(0 + indent, 11);
     str = trimmed(str);
     double temp_d = stod(str);
-    str = line.substr(12 + indent, 3);
+    // Three digit exponents leave no space for the D, e.g. 0.12345678-101
+    if (line.at(11 + indent) == 'D') {
+      str = line.substr(12 + indent, 3);
+    } else {
+      str = line.substr(11 + indent, 4);
+    }
     str = trimmed(str);
     double temp_d2 = stod(str);
     values.push_back(temp_d * pow(10, temp_d2));
-- 
2.43.0


From d35b7141599e1d352b7b44de530a06977fe0818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 04/42] fix: overlap matrix of a system with at most five basis
 functions could not be read

---
 src/libcatnip/io/file_readers/logreader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..eb4f82c 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -191,11 +191,12 @@ void LogReader::OverlapSectionReader(void *ptr) {
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
+    countC.clear();
     getline(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
-    if (countCint != (countCoef + 1)) {
+    // With at most five basis functions the next section follows directly
+    if (countC != to_string(countCoef + 1)) {
       endFirstSection = true;
     } else {
       ++countCoef;
-- 
2.43.0


From f01f5c185c42f0e9149c52543c8a5a6381fc94d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 05/42] fix: the missing part of a truncated overlap matrix was
 silently read as zeros

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index eb4f82c..5a5db6e 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -240,7 +240,9 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      if (!getline(LR_ptr->fid_, line)) {
+        throw runtime_error("The .log file ends within the overlap matrix");
+      }
       istringstream iss(line);
       string dummy;
       iss >> dummy;
-- 
2.43.0


From d99a25c90294158e1dff10eb5453f911da39bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 06/42] fix: three digit exponents in the overlap matrix of a
 .log file could not be read

---
 src/libcatnip/io/file_readers/logreader.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 5a5db6e..9652e02 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -64,6 +64,16 @@ vector<string> splitStEnergies(const string & line){
   return items2;
 }
 
+// Fortran leaves out the D if the exponent has three digits, e.g. 0.123456-101
+double readFortranDouble(const string &str) {
+  size_t pos = str.find_last_of("D+-");
+  if (pos != string::npos && pos > 0 && str.at(pos - 1) == 'D') --pos;
+  string val = str.substr(0, pos);
+  string expon = pos == string::npos ? "" : str.substr(pos);
+  if (expon[0] == 'D') expon = expon.substr(1);
+  return stod(val) * pow(10.0, stod(expon));
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -206,9 +216,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
       while (!iss.eof()) {
         string s_coef;
         iss >> s_coef;
-        string val = grabStrBeforeFirstOccurance(s_coef, "D");
-        string exp = grabStrAfterFirstOccurance(s_coef, "D");
-        row.push_back(stod(val) * pow(10.0, stod(exp)));
+        row.push_back(readFortranDouble(s_coef));
       }
       first_coefs.push_back(row);
     }
@@ -250,9 +258,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
       while (!iss.eof()) {
         string s_coef;
         iss >> s_coef;
-        string val = grabStrBeforeFirstOccurance(s_coef, "D");
-        string expon = grabStrAfterFirstOccurance(s_coef, "D");
-        double value = stod(val) * pow(10.0, stod(expon));
+        double value = readFortranDouble(s_coef);
         mat_S->set_elem(value, sectionCoef + 1,
                         currentSectionStart + localCoefCount);
         if ((sectionCoef + 1) != (currentSectionStart + localCoefCount)) {
-- 
2.43.0


From b29234e15ef7c16d787c93b6cc0004227e3a6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 07/42] fix: a .log file without overlap matrix led to the use
 of an uninitialised pointer

---
 src/libcatnip/io/file_readers/logreader.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..3521668 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -2,6 +2,7 @@
 #ifndef _CATNIP_LOGREADER_HPP_
 #define _CATNIP_LOGREADER_HPP_
 
+#include <stdexcept>
 #include <vector>
 
 #include "../../matrix.hpp"
@@ -18,7 +19,12 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const {
+    if (S_ == nullptr) {
+      throw std::runtime_error("No overlap matrix was found in " + fileName_);
+    }
+    return S_;
+  }
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +54,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From dfd832a5c4eab56da92d8772a6e2fac3ce77c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 08/42] fix: a .log file truncated within the orbital
 populations was read forever

---
 src/libcatnip/io/file_readers/logreader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 9652e02..999d372 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -140,7 +140,9 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    if (!getline(LR_ptr->fid_, line)) {
+      throw runtime_error("The .log file ends within the orbital populations");
+    }
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -160,7 +162,10 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      if (!getline(LR_ptr->fid_, line)) {
+        throw runtime_error(
+            "The .log file ends within the orbital populations");
+      }
 
       istringstream iss3(line);
       iss3 >> elemType2;
-- 
2.43.0


From 8423cb536b77f591206e96a7344817f001fb41cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 09/42] fix: Matrix released arrays with delete instead of
 delete[]

---
 src/libcatnip/matrix.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..eafd277 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -416,7 +416,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -488,7 +488,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -545,7 +545,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -560,7 +560,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -585,7 +585,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -600,7 +600,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From e0f5ac41d279e3049745e399f07ab257fb39e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 10/42] fix: copies of a Matrix shared its elements and
 assignment lost its shelves

---
 src/libcatnip/matrix.cpp | 31 ++++++++++++++++++++-----------
 src/libcatnip/matrix.hpp |  3 +++
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index eafd277..8ff5104 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 #include <exception>
@@ -279,7 +280,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
@@ -425,14 +425,23 @@ int Matrix::resize(int r, int c) {
   return 0;
 }
 
-Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
-
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
+Matrix::Matrix(const Matrix &m)
+    : rows(m.rows), cols(m.cols), shel(m.shel), elem(nullptr) {
+  const int total = rows * cols * shel;
+  if (total > 0) {
+    elem = new double[total];
+    copy(m.elem, m.elem + total, elem);
   }
+}
+
+Matrix::~Matrix() { delete[] elem; }
+
+Matrix &Matrix::operator=(const Matrix &m) {
+  Matrix temp(m);
+  swap(rows, temp.rows);
+  swap(cols, temp.cols);
+  swap(shel, temp.shel);
+  swap(elem, temp.elem);
   return *this;
 }
 
@@ -897,15 +906,15 @@ Matrix Matrix::invert() const{
     exit(1);
   }
 
-  Matrix *mat2 = new Matrix(this->get_cols(), this->get_rows());
+  Matrix mat2(this->get_cols(), this->get_rows());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int j = 1; j <= this->get_cols(); j++) {
       double val = this->get_elem(i, j);
-      (*mat2).set_elem(val, j, i);
+      mat2.set_elem(val, j, i);
     }
   }
-  return *mat2;
+  return mat2;
 }
 
 Matrix Matrix::getRow(int R) const{
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..12725e5 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -23,6 +23,9 @@ class Matrix {
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
 
+  Matrix(const Matrix &m);
+  ~Matrix();
+
   Matrix &operator=(const Matrix &m);
   // manipulators
   void set_rows(int r);
-- 
2.43.0


From 4f4efa7382026cdcad2ceb4893ff27e35e664747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 11/42] fix: values that round to zero from below did not match
 ones that do from above

---
 src/libcatnip/matrix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 8ff5104..1ca6d32 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -172,7 +172,10 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 string double_tos(double f, int nd) {
   ostringstream ostr;
   int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  double rounded = round(f * tens) / tens;
+  // Do not distinguish -0 from 0
+  if (rounded == 0) rounded = 0;
+  ostr << rounded;
   return ostr.str();
 }
 
-- 
2.43.0


From 085b5d40d7cdfc62a1eda38f1ae8cc3bfe2ff1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 12/42] fix: set_rows, set_cols and set_shel lost or misplaced
 the elements of a Matrix

---
 src/libcatnip/matrix.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 1ca6d32..1225d57 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -492,7 +492,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
@@ -549,10 +549,11 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          const int ind = (i - 1) * c * shel + (j - 1) * shel + k - 1;
+          if (j <= cols) {
+            temp[ind] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[ind] = 0;
           }
         }
       }
@@ -568,7 +569,8 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] =
+              elem[index(i, j, k)];
         }
       }
     }
@@ -589,10 +591,11 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          const int ind = (i - 1) * cols * s + (j - 1) * s + k - 1;
+          if (k <= shel) {
+            temp[ind] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[ind] = 0;
           }
         }
       }
@@ -608,7 +611,8 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] =
+              elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From 0a966cd57af7ac6c4133366b5eb353ebde00d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 13/42] fix: set_col, and with it swap_col and move_col,
 refused non square matrices

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 1225d57..9eb81df 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -469,7 +469,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-- 
2.43.0


From a589a4f59927bc8d15696fc335c99fc2aba6a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 14/42] fix: rows and columns outside of a Matrix could be read
 and written

---
 src/libcatnip/matrix.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 9eb81df..8490732 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -457,13 +457,12 @@ void Matrix::set_row(vector<double> row, int r) {
   if (get_cols() != static_cast<int>(row.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
 
   for (int j = 1; j <= get_cols(); j++) {
-    if (r <= rows) {
-      elem[index(r, j, 1)] = row.at(j - 1);
-    } else {
-      elem[index(r, j, 1)] = 0;
-    }
+    elem[index(r, j, 1)] = row.at(j - 1);
   }
 }
 
@@ -472,12 +471,11 @@ void Matrix::set_col(vector<double> col, int c) {
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   for (int i = 1; i <= get_rows(); ++i) {
-    if (c <= cols) {
-      elem[index(i, c, 1)] = col.at(i - 1);
-    } else {
-      elem[index(i, c, 1)] = 0;
-    }
+    elem[index(i, c, 1)] = col.at(i - 1);
   }
 }
 
@@ -522,6 +520,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -530,6 +531,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
-- 
2.43.0


From 589371ce0acb871b919d9be9f23b4dfcafc7e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 15/42] fix: getCol returned a column of the wrong length,
 which also broke findRank

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 8490732..3319f66 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -954,7 +954,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From e3b77ca202359b3dd8bb9287d826574361e193dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 16/42] fix: printing a Matrix showed the first shelf for every
 shelf

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 3319f66..2683824 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -197,7 +197,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From 306bc42a9bc3967d52569fdc1aa4e74b84dafb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 17/42] fix: atoms that could not be lined up gave a wrong
 result or an endless loop

---
 src/libcatnip/qc_functions.cpp | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..ffd6fa8 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -623,6 +623,40 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
   mat_P_OE = matPOE;
 }
 
+namespace {
+
+// Each atom must be found, and none of the atoms may be found twice
+void checkMatch(const vector<int> &match, vector<bool> &found) {
+  for (int atom : match) {
+    if (atom < 1 || atom > static_cast<int>(found.size())) {
+      throw invalid_argument(
+          "Unable to line up the atoms, an atom is missing in one of the .log "
+          "files");
+    }
+    if (found.at(atom - 1)) {
+      throw invalid_argument(
+          "Unable to line up the atoms, two atoms share the same coordinates");
+    }
+    found.at(atom - 1) = true;
+  }
+}
+
+// The basis functions of all the atoms must add up to the number of
+// coefficients
+void checkBasis(const vector<int> &basis, const Matrix &coord,
+                const Matrix &coefs) {
+  int total = 0;
+  for (int count : basis) total += count;
+  if (static_cast<int>(basis.size()) != coord.get_cols() ||
+      total != coefs.get_cols()) {
+    throw invalid_argument(
+        "The basis functions per atom do not agree with the number of atoms "
+        "or coefficients");
+  }
+}
+
+}  // namespace
+
 void TransferComplex::unscramble(const Matrix &coord_1_mat,
                                  const Matrix &coord_2_mat,
                                  const Matrix &coord_P_mat,
@@ -633,10 +667,16 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
 
   const int sig_fig = 4;
 
+  checkBasis(basisP, coord_P_mat, *mat_P_Coef);
+  vector<bool> found_P(coord_P_mat.get_cols(), false);
+
   // If dealing with counter poise correction may also need to unscramble
   // the basis functions of the monomers
   if (counterPoise_) {
     vector<int> match_1_2 = coord_1_mat.matchCol(coord_2_mat, sig_fig);
+    checkBasis(basis2, coord_2_mat, *mat_2_Coef);
+    vector<bool> found_2(coord_2_mat.get_cols(), false);
+    checkMatch(match_1_2, found_2);
 
     LOG("Counter Poise unscrambling matrix 2 with respect to matrix 1", 2);
     auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, mat_2_Coef);
@@ -644,6 +684,7 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     this->mat_2_Coef = unscrambled_2_Coef;
 
     vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);
+    checkMatch(match_1_P, found_P);
 
     auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);
 
@@ -660,6 +701,8 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
 
     // Stores the rows in P that match 2
     vector<int> match_2_P = coord_2_mat.matchCol(coord_P_mat, sig_fig);
+    checkMatch(match_1_P, found_P);
+    checkMatch(match_2_P, found_P);
 
     LOG("Unscrambling dimer matrix with respect to matrix 1 and 2", 2);
     auto unscrambled_P_Coef =
-- 
2.43.0


From ea3f81aa86bac1b56c717f17301481aa464139ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 18/42] fix: file names with more than one dot were refused by
 the file readers

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From 823e070b72f0147257c81cd7c85d5882fb241a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 19/42] fix: .7 and .orb files were refused although they are
 documented

---
 src/libcatnip/io/file_readers/punreader.cpp |  5 +++--
 src/libcatnip/parameters.cpp                | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 3ac585c..31fd5ec 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -39,8 +39,9 @@ Matrix *PunReader::getCoefsMatrix(const string &orb_type) {
 
 void PunReader::validFileName_() {
   string ext = fileExt_();
-  if (ext.compare(".pun") != 0) {
-    throw invalid_argument("A pun file must have the .pun extension");
+  if (ext.compare(".pun") != 0 && ext.compare(".7") != 0 &&
+      ext.compare(".orb") != 0) {
+    throw invalid_argument("A pun file must have the .pun/.orb/.7 extension");
   }
 }
 
diff --git a/src/libcatnip/parameters.cpp b/src/libcatnip/parameters.cpp
index c43617b..7fd998c 100644
--- a/src/libcatnip/parameters.cpp
+++ b/src/libcatnip/parameters.cpp
@@ -7,6 +7,15 @@
 using namespace catnip;
 using namespace std;
 
+namespace {
+
+bool punExtValid(const string& pun) {
+  string ext = grabStrAfterLastOccuranceInclusive(lastStringInPath(pun), ".");
+  return ext == ".pun" || ext == ".7" || ext == ".orb";
+}
+
+}  // namespace
+
 void Parameters::setLog1(const string& log1) {
   string ext = lastN(log1, 4);
   if (ext.compare(".log"))
@@ -26,20 +35,17 @@ void Parameters::setLogP(const string& logP) {
   logP_ = logP;
 }
 void Parameters::setPun1(const string& pun1) {
-  string ext = lastN(pun1, 4);
-  if (ext.compare(".pun"))
+  if (!punExtValid(pun1))
     throw invalid_argument("pun file has wrong extension");
   pun1_ = pun1;
 }
 void Parameters::setPun2(const string& pun2) {
-  string ext = lastN(pun2, 4);
-  if (ext.compare(".pun"))
+  if (!punExtValid(pun2))
     throw invalid_argument("pun file has wrong extension");
   pun2_ = pun2;
 }
 void Parameters::setPunP(const string& punP) {
-  string ext = lastN(punP, 4);
-  if (ext.compare(".pun"))
+  if (!punExtValid(punP))
     throw invalid_argument("pun file has wrong extension");
   punP_ = punP;
 }
-- 
2.43.0


From 5ffa88d7133fa7f591d82782a532ad52f4af00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 20/42] fix: the value given to a switch was taken for another
 flag

---
 src/libcatnip/io/argumentparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..a3e6981 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -466,6 +466,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
-- 
2.43.0


From 5e54e6820da37f20a2890886b51fbda591db3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 21/42] fix: a switch given without value still had the string
 value OFF

---
 src/libcatnip/io/argumentparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index a3e6981..f6f6e03 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -455,6 +455,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           unrecognized = false;
           int_values_[flag] = 1;
+          string_values_[flag] = "ON";
         }
       } else {
         string argument = arguments.at(index + 1);
@@ -471,6 +472,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
     } else {
       unrecognized = false;
       int_values_[flag] = 1;
+      string_values_[flag] = "ON";
     }
   }
   if (int_arg_.count(flag) != 0) {
-- 
2.43.0


From 12eaf2b005927084bbda2bbf05171f6f1d06c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 22/42] fix: -v did not show the version

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index f6f6e03..17f6390 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -653,7 +653,7 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag = "--citation";
   string citation_flag_short = "-cite";
   string version_flag = "--version";
-  string version_flag_short = "-version";
+  string version_flag_short = "-v";
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
-- 
2.43.0


From 037d4c91ea5bbb248c59bf6b220b79cf938bc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 23/42] fix: adding a double argument twice was accepted and
 dropped its settings

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 17f6390..8ac0e6c 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
-- 
2.43.0


From 9e6e05d97036086dec33f075401a1da96dc86f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 24/42] fix: setting a single string choice always threw an
 exception

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..416b2ed 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
-- 
2.43.0


From bca05b7e9def1a3521dbae437b01f33609035f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 25/42] fix: FILE_DOES_EXIST was unset or kept from an earlier
 file

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..a66d584 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -34,9 +35,7 @@ bool PropertyFileExist::propValid(const string& fileNamePath) {
     }
     setPropOption_("FILE_DOES_EXIST", 1);
   } else {
-    if (fileExist(fileNamePath)) {
-      setPropOption_("FILE_DOES_EXIST", 1);
-    }
+    setPropOption_("FILE_DOES_EXIST", fileExist(fileNamePath) ? 1 : 0);
   }
   return true;
 }
-- 
2.43.0


From 28c7e9df81edf23561f946c530c62d5c35ed7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 26/42] fix: a companion file in a path with spaces was not
 found

---
 src/libcatnip/io/io.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..a6dcd7a 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,18 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    // The path names may contain spaces and cannot be split, the exts can
+    vector<string> sister_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        string path = ArgParse->getStr(flag);
+        string core = grabStrBeforeLastOccurance(lastStringInPath(path), ".");
+        flag_sister_arg[flag_sister] =
+            getPath(path) + core + sister_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0


From c4b21f184141424461d3ba9293bdc8cc99729ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 27/42] fix: elements of an empty Matrix could be read and
 written

---
 src/libcatnip/matrix.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2683824..73a0f3f 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -448,6 +448,17 @@ Matrix &Matrix::operator=(const Matrix &m) {
   return *this;
 }
 
+namespace {
+
+// Even the first element, row or shelf does not exist in an empty matrix
+void checkNotEmpty(const int rows, const int cols, const int shel) {
+  if (rows < 1 || cols < 1 || shel < 1) {
+    throw invalid_argument("the matrix has no elements");
+  }
+}
+
+}  // namespace
+
 int Matrix::index(const int r, const int c, const int s) const {
   return (r - 1) * cols * shel + (c - 1) * shel + s - 1;
 }
@@ -460,6 +471,7 @@ void Matrix::set_row(vector<double> row, int r) {
   if (r < 1 || r > rows) {
     throw invalid_argument("row is outside of the matrix");
   }
+  if (shel < 1) throw invalid_argument("the matrix has no elements");
 
   for (int j = 1; j <= get_cols(); j++) {
     elem[index(r, j, 1)] = row.at(j - 1);
@@ -474,6 +486,7 @@ void Matrix::set_col(vector<double> col, int c) {
   if (c < 1 || c > cols) {
     throw invalid_argument("column is outside of the matrix");
   }
+  if (shel < 1) throw invalid_argument("the matrix has no elements");
   for (int i = 1; i <= get_rows(); ++i) {
     elem[index(i, c, 1)] = col.at(i - 1);
   }
@@ -523,6 +536,7 @@ vector<double> Matrix::get_col(int c) const{
   if (c < 1 || c > cols) {
     throw invalid_argument("column is outside of the matrix");
   }
+  if (shel < 1) throw invalid_argument("the matrix has no elements");
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -534,6 +548,7 @@ vector<double> Matrix::get_row(int r) const {
   if (r < 1 || r > rows) {
     throw invalid_argument("row is outside of the matrix");
   }
+  if (shel < 1) throw invalid_argument("the matrix has no elements");
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
@@ -626,7 +641,10 @@ void Matrix::set_shel(int s) {
   }
 }
 
-void Matrix::set_elem(double val) { elem[0] = val; }
+void Matrix::set_elem(double val) {
+  checkNotEmpty(rows, cols, shel);
+  elem[0] = val;
+}
 
 void Matrix::set_elem(double val, int r) {
   if (r > rows) {
@@ -640,6 +658,7 @@ void Matrix::set_elem(double val, int r) {
     exit(1);
   };
 
+  checkNotEmpty(rows, cols, shel);
   elem[index(r, 1, 1)] = val;
 }
 
@@ -667,6 +686,7 @@ void Matrix::set_elem(double val, int r, int c) {
     exit(1);
   };
 
+  checkNotEmpty(rows, cols, shel);
   elem[index(r, c, 1)] = val;
 }
 
@@ -716,7 +736,10 @@ int Matrix::get_shel() const { return shel; }
 
 int Matrix::total_elem() { return rows * cols * shel; }
 
-double Matrix::get_elem() const { return elem[0]; }
+double Matrix::get_elem() const {
+  checkNotEmpty(rows, cols, shel);
+  return elem[0];
+}
 
 double Matrix::get_elem(const int r) const {
   if (r < 1) {
@@ -728,6 +751,7 @@ double Matrix::get_elem(const int r) const {
         "Matrix\n");
     exit(1);
   }
+  checkNotEmpty(rows, cols, shel);
   return elem[index(r, 1, 1)];
 }
 
@@ -749,6 +773,7 @@ double Matrix::get_elem(const int r, const int c) const {
         "Matrix\n");
     exit(1);
   }
+  checkNotEmpty(rows, cols, shel);
   return elem[index(r, c, 1)];
 }
 
-- 
2.43.0


From b7eb48dadc196226ccc08e20b898e0b2acfc279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 28/42] fix: a .log file truncated at the end of a coordinate
 line was read forever

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 999d372..0754755 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -357,7 +357,9 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    if (!getline(LR_ptr->fid_, line)) {
+      throw runtime_error("The .log file ends within the coordinates");
+    }
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
-- 
2.43.0


From a91d0330d3685e333a410cd418c43c689787f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 29/42] fix: orbitals missing in the .log file of a monomer led
 to a wrong orbital

---
 src/tools/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/main.cpp b/src/tools/main.cpp
index be9d395..741a00e 100644
--- a/src/tools/main.cpp
+++ b/src/tools/main.cpp
@@ -119,6 +119,14 @@ int main(int argc, const char *argv[]) {
     int MO1 = mat_1_OE->get_rows();
     int MO2 = mat_2_OE->get_rows();
 
+    // The number of the HOMO comes from the energies, and is used to pick the
+    // coefficients
+    if (MO1 != mat_1_Coef->get_rows() || MO2 != mat_2_Coef->get_rows()) {
+      throw invalid_argument(
+          "The number of orbital energies in the .log file of a monomer does "
+          "not agree with the number of orbitals in its .pun file");
+    }
+
     pair<int, int> Orbs1 = {MO1, HOMO1};
     pair<int, int> Orbs2 = {MO2, HOMO2};
 
-- 
2.43.0


From f644b47c75a3318c0050305a5d8d1e8c23652a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 30/42] fix: a .log file that ends after the header of the
 orbital energies was read forever

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 0754755..34187fb 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -297,9 +297,9 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
     bool virtFound;
 
     occFound =
-        foundSubStrInStr(line, " " + orb_type + "  occ. eigenvalues -- ");
+        foundSubStrInStr(line, " " + orb_type + "  occ. eigenvalues --");
     virtFound =
-        foundSubStrInStr(line, " " + orb_type + " virt. eigenvalues -- ");
+        foundSubStrInStr(line, " " + orb_type + " virt. eigenvalues --");
 
     if (occFound || virtFound) {
 
-- 
2.43.0


From 74dd0b3fbf72157bc52317ea8049595a13d885e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 31/42] fix: the 0 of function labels such as 5D 0 was taken
 for a population

---
 src/libcatnip/io/file_readers/logreader.cpp | 34 ++++++++++++---------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 34187fb..4139c5a 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -74,6 +74,23 @@ double readFortranDouble(const string &str) {
   return stod(val) * pow(10.0, stod(expon));
 }
 
+// Reads the label of a basis function and its populations, labels of functions
+// with m = 0 are made up of two parts, e.g. 5D 0
+vector<double> readOrbPopulations(istringstream &iss, string &orbType) {
+  iss >> orbType;
+  vector<double> orbVals;
+  while (!iss.eof()) {
+    string Tot_Alpha_Beta_Spin;
+    iss >> Tot_Alpha_Beta_Spin;
+    if (orbVals.empty() && Tot_Alpha_Beta_Spin == "0") {
+      orbType += " 0";
+    } else {
+      orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
+    }
+  }
+  return orbVals;
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -131,13 +148,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     iss >> elemType;
 
     string orbType;
-    iss >> orbType;
-    vector<double> orbVals;
-    while (!iss.eof()) {
-      string Tot_Alpha_Beta_Spin;
-      iss >> Tot_Alpha_Beta_Spin;
-      orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
-    }
+    vector<double> orbVals = readOrbPopulations(iss, orbType);
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
     if (!getline(LR_ptr->fid_, line)) {
@@ -151,14 +162,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     while (!isAlphabetical(elemType2)) {
       istringstream iss2(line);
       iss2 >> AOnum;
-      iss2 >> orbType;
-
-      orbVals.clear();
-      while (!iss2.eof()) {
-        string Tot_Alpha_Beta_Spin;
-        iss2 >> Tot_Alpha_Beta_Spin;
-        orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
-      }
+      orbVals = readOrbPopulations(iss2, orbType);
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-- 
2.43.0


From 4b37e91e7ae3e5c1285963fa0113ee356d5bdf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 32/42] fix: the usage of a flag without an abbreviation was
 padded without end

---
 src/libcatnip/io/argumentparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 8ac0e6c..73f2bb5 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -89,6 +89,10 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     if (!flag_name) {
       throw invalid_argument("You have failed to provide the full flag name");
     }
+    // The placeholder of a flag without an abbreviation is printed as well
+    if (short_flag.size() > maxShortFlagSize) {
+      maxShortFlagSize = short_flag.size();
+    }
     flags_[full_flag] = make_pair(short_flag, desc);
   }
 }
-- 
2.43.0


From fa91eb9665420938a785bfc8d3f3579adb0f9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 33/42] fix: an empty set given as STRING_CHOICE_ENFORCED was
 dereferenced

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 416b2ed..b10025b 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -51,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0


From 2546d5de8c354fbd71f4b8f6e803fd4a5a70c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 34/42] fix: the populations of an earlier table were mixed
 with those of the last one

---
 src/libcatnip/io/file_readers/logreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 4139c5a..e5ce3ed 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -133,6 +133,9 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   LOG("Reading atomic basis functions from .log file", 1);
   LogReader *LR_ptr = static_cast<LogReader *>(ptr);
 
+  // Clear contents only want the most uptodate populations
+  LR_ptr->orb_.clear();
+
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-- 
2.43.0


From 11b73bbe5d982da1b8623abbfe0e85ad2c6333a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 35/42] fix: a reader whose reading had failed read nothing the
 next time

---
 src/libcatnip/io/file_readers/filereader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 73a1747..cc2634b 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -30,8 +30,11 @@ void FileReader::open() {
   if (!fileExist_()) {
     throw invalid_argument("File " + fileName_ + " does not exist.");
   }
+  // A reading that failed leaves the file open
+  if (fileOpen_) close();
   fid_.open(fileName_);
   fileOpen_ = true;
+  pos_ = fid_.tellg();
 }
 
 void FileReader::close() {
-- 
2.43.0


From c96c0848e6e0981af6079cf1996490c69a01262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 36/42] fix: the citation switch of new Parameters was not
 initialised

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From 4cb8172cd6f07b1473c96f29a4192601cd91cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 37/42] fix: check the values of rules that are set through an
 argument or parser

The checks of PropertyStringChoice, PropertySisterFile and PropertyFileExt
were hidden behind the non-virtual PropertyObject::setPropOption, so that a
choice enforced "TRUE", an extension "a.log" or a name of a companion file
set from outside was accepted.
---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp  | 7 +++++--
 src/libcatnip/io/arguments/properties/propertyfileext.hpp  | 2 +-
 src/libcatnip/io/arguments/properties/propertyobject.hpp   | 2 +-
 .../io/arguments/properties/propertysisterfile.cpp         | 2 +-
 .../io/arguments/properties/propertysisterfile.hpp         | 2 +-
 .../io/arguments/properties/propertystringchoice.cpp       | 2 +-
 .../io/arguments/properties/propertystringchoice.hpp       | 2 +-
 7 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..17d8bf7 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,14 +66,17 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string>& vars) {
+  for (const auto& ext : vars) {
+    checkExt(ext);
+  }
   PropertyObject::setPropOption(option, vars);
 }
 
 void PropertyFileExt::setPropOption(std::string option, std::string var) {
   set<string> vars;
   vars.insert(var);
-  PropertyObject::setPropOption(option, vars);
+  setPropOption(option, vars);
 }
 
 bool PropertyFileExt::propValid(const string& fileNamePath) {
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..78a6c6f 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,7 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string> &var);
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..2426d06 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string>& vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..3b4c6e1 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,7 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option, const std::vector<std::string> &var);
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index b10025b..a845e00 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -45,7 +45,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string>& set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..6cf44a5 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,7 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& var);
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From 3cc425eaff03735c1d39505672f93ccd360d48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 38/42] fix: getFlagArgOptValue did not know arguments of type
 double

---
 src/libcatnip/io/argumentparser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 73f2bb5..364d83d 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -558,6 +558,13 @@ string ArgumentParser::getFlagArgOptValue(string flag, string argname,
       return argInt->getPropertyValues(property, option);
     }
   }
+  if (double_arg_.count(flag) != 0) {
+    auto argDouble = double_arg_[flag];
+    auto argName = argDouble->getArgumentName();
+    if (argName.compare(argname) == 0) {
+      return argDouble->getPropertyValues(property, option);
+    }
+  }
 
   throw invalid_argument("Unrecognized flag or argument " + flag + " " +
                          argname);
-- 
2.43.0


From 8df88f6d5a74837d3908ba5d1b36b7072d01c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:23 +0000
Subject: [PATCH 39/42] fix: coordinates on two sides of a rounding border did
 not match

---
 src/libcatnip/matrix.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 73a0f3f..e807868 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -3,7 +3,6 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
-#include <sstream>
 #include <stdexcept>
 #include <stdio.h>
 #include <string>
@@ -169,14 +168,10 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
   return mat3;
 }
 
-string double_tos(double f, int nd) {
-  ostringstream ostr;
-  int tens = stod("1" + string(nd, '0'));
-  double rounded = round(f * tens) / tens;
-  // Do not distinguish -0 from 0
-  if (rounded == 0) rounded = 0;
-  ostr << rounded;
-  return ostr.str();
+// Two numbers agree to nd decimals if they differ by less than half a unit of
+// the last one; rounding both would separate 0.00049 from 0.00051.
+static bool agree(double a, double b, int nd) {
+  return fabs(a - b) < 0.5 * pow(10.0, -nd);
 }
 
 std::ostream &operator<<(std::ostream &out, Matrix &mat) {
@@ -894,9 +889,7 @@ vector<int> Matrix::matchRow(const Matrix & mat, int sf) {
     for (int ii = 1; ii <= mat.get_rows(); ++ii) {
       bool match = true;
       for (int j = 1; j <= get_cols(); ++j) {
-        string val1 = double_tos(get_elem(i, j), sf);
-        string val2 = double_tos(mat.get_elem(ii, j), sf);
-        if (val1.compare(val2) != 0) {
+        if (!agree(get_elem(i, j), mat.get_elem(ii, j), sf)) {
           match = false;
           break;
         }
@@ -922,9 +915,7 @@ vector<int> Matrix::matchCol(const Matrix &mat, const int sf) const {
     for (int ii = 1; ii <= mat.get_cols(); ++ii) {
       bool match = true;
       for (int j = 1; j <= get_rows(); ++j) {
-        string val1 = double_tos(get_elem(j, i), sf);
-        string val2 = double_tos(mat.get_elem(j, ii), sf);
-        if (val1.compare(val2) != 0) {
+        if (!agree(get_elem(j, i), mat.get_elem(j, ii), sf)) {
           match = false;
           break;
         }
-- 
2.43.0


From b2baf558a5f39eac59ffb91d4fcbb8081d33436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 40/42] fix: reading a file again kept sections that it no
 longer holds

---
 src/libcatnip/io/file_readers/filereader.cpp | 1 +
 src/libcatnip/io/file_readers/filereader.hpp | 2 ++
 src/libcatnip/io/file_readers/logreader.cpp  | 8 ++++++++
 src/libcatnip/io/file_readers/logreader.hpp  | 1 +
 src/libcatnip/io/file_readers/punreader.hpp  | 1 +
 5 files changed, 13 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index cc2634b..c684c58 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -13,6 +13,7 @@ string FileReader::getExt() const { return fileExt_(); }
 
 void FileReader::read() {
   open();
+  clear_();
   string line;
   while (getline(fid_, line)) {
     string tag = startSection_(line);
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index 91d374d..e941db7 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -28,6 +28,8 @@ class FileReader {
   void close();
   virtual void registerSections_();
   virtual void validFileName_(){};
+  // Forgets what was found when the file was last read
+  virtual void clear_(){};
   void checkSections_();
   void readSection_(std::string tag);
   std::string startSection_(const std::string &tag);
diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index e5ce3ed..cdda733 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -121,6 +121,14 @@ void LogReader::validFileName_() {
   }
 }
 
+void LogReader::clear_() {
+  homoLevel.clear();
+  orb_.clear();
+  S_ = nullptr;
+  OREnergies.clear();
+  xyz.clear();
+}
+
 vector<int> LogReader::getBasisFuncCount() {
   vector<int> basisFuncCount;
   for (auto values : orb_) {
diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 3521668..90cf764 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -37,6 +37,7 @@ class LogReader : public FileReader {
  private:
   virtual void registerSections_();
   virtual void validFileName_();
+  virtual void clear_();
 
   static void AOFunctionSectionReader(void *);
   static void OverlapSectionReader(void *);
diff --git a/src/libcatnip/io/file_readers/punreader.hpp b/src/libcatnip/io/file_readers/punreader.hpp
index 73f8846..5ee5e98 100644
--- a/src/libcatnip/io/file_readers/punreader.hpp
+++ b/src/libcatnip/io/file_readers/punreader.hpp
@@ -18,6 +18,7 @@ class PunReader : public FileReader {
  private:
   virtual void registerSections_();
   virtual void validFileName_();
+  virtual void clear_() { coefs.clear(); }
 
   static void OrbitalCoefAlphaSectionReader(void *);
   static void OrbitalCoefBetaSectionReader(void *);
-- 
2.43.0


From 2c33c0b80a19679587635a21931abc9c81387602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 41/42] fix: the header of a section right below the overlap
 matrix was skipped

---
 src/libcatnip/io/file_readers/logreader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index cdda733..a45bcb1 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -220,8 +220,10 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
+  streampos line_start;
   while (!endFirstSection) {
     countC.clear();
+    line_start = LR_ptr->fid_.tellg();
     getline(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
@@ -292,8 +294,11 @@ void LogReader::OverlapSectionReader(void *ptr) {
     }
     ++section;
     currentSectionStart += 5;
+    line_start = LR_ptr->fid_.tellg();
     getline(LR_ptr->fid_, line);
   }
+  // The line below the matrix may be the header of the next section
+  if (LR_ptr->fid_) LR_ptr->fid_.seekg(line_start);
   LR_ptr->S_ = mat_S;
   LOG("Success reading Overlap coefficients from .log file", 2);
   return;
-- 
2.43.0


From ee3bef5942501ae39b58b277dda8566d9d20672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:19 +0000
Subject: [PATCH 42/42] fix: the placeholder of a missing abbreviation was
 taken for a flag

---
 src/libcatnip/io/argumentparser.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 364d83d..1db88d6 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -13,6 +13,13 @@
 using namespace catnip;
 using namespace std;
 
+namespace {
+
+// Stands for the abbreviation of a flag that has none, it is not one itself
+const char *const noShortFlag = "NO_SHORT_FLAG_SPECIFIED";
+
+}  // namespace
+
 ArgumentParser::ArgumentParser(set<vector<string>> flags) {
 
   vector<string> flag_help;
@@ -34,7 +41,7 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     }
 
     string full_flag = "NO_FLAG_SPECIFIED";
-    string short_flag = "NO_SHORT_FLAG_SPECIFIED";
+    string short_flag = noShortFlag;
     string desc = "NO_DESCRIPTION_GIVEN";
 
     bool description = false;
@@ -407,7 +414,8 @@ void ArgumentParser::setFlagArgOpt(string flag, string argname, string property,
 bool ArgumentParser::nextParameterIsAFlag_(size_t index,
                                            vector<string> arguments) {
 
-  if ((index + 1) < arguments.size()) {
+  if ((index + 1) < arguments.size() &&
+      arguments.at(index + 1) != noShortFlag) {
     for (auto flag : flags_) {
       if (flag.first.compare(arguments.at(index + 1)) == 0) {
         return true;
@@ -422,7 +430,7 @@ bool ArgumentParser::nextParameterIsAFlag_(size_t index,
 void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
   string flag = arguments.at(index);
   // If the abbreviated flag is passed we need to resolve the full flag name
-  if (flags_.count(flag) == 0) {
+  if (flags_.count(flag) == 0 && flag != noShortFlag) {
     for (auto item : flags_) {
       if (item.second.first.compare(flag) == 0) {
         flag = item.first;
-- 
2.43.0

