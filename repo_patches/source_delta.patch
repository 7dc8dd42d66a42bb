From da87e574d4afd2794528988d4e3e29d2fbe10ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 01/80] fix: take the lock when clearing the cache

---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From 0bbee34207f85905115f1279866797a0ed42d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 02/80] fix: serialise level energy queries of several threads

---
 pairinteraction/QuantumDefect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..7e13196 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -87,6 +88,11 @@ void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
     static std::string used_db_name;
 
+    // The cache only holds elements of one database at a time. Protect the sequence of checking
+    // the database, looking up the element, and saving it.
+    static std::mutex setup_mutex;
+    std::lock_guard<std::mutex> lock(setup_mutex);
+
     if (used_db_name != db_name) {
         used_db_name = db_name;
         cache.clear(); // Clear cache
-- 
2.43.0


From 0377cdb8fcbbcc62124f621b036337c5dc2492f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 03/80] fix: do not mix the tables of different defect
 databases

---
 pairinteraction/QuantumDefect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index 7e13196..e7c7b87 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -74,7 +74,8 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local EmbeddedDatabase embedded_database{};
         setup(embedded_database, database);
     } else {
-        static thread_local sqlite::handle db(":memory:");
+        // Do not reuse the handle since it would still contain the tables of other databases
+        sqlite::handle db(":memory:");
         sqlite::statement stmt(db);
         std::ifstream ifs(database);
         std::stringstream buffer;
-- 
2.43.0


From 7065d4fc5cdd6904c70798490ee96d3d5ef2ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 04/80] fix: iterate over all rows of an SQLite result

---
 pairinteraction/SQLite.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..99c6560 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!p->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,11 +274,7 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
-            }
+            m_end = !m_stmt->step();
             return *this;
         }
         bool operator!=(iterator const & /* unused */) const { return !m_end; }
-- 
2.43.0


From 820e7ccd40f402b05bd4d05dcb021ed23ea154c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 05/80] fix: read back text with embedded null characters
 completely

---
 pairinteraction/SQLite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 99c6560..7f451fa 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -244,8 +244,9 @@ public:
     template <typename T,
               typename = typename std::enable_if<std::is_same<T, std::string>::value>::type>
     std::string get(int field) {
-        return std::string(
-            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field)));
+        auto const *text =
+            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field));
+        return std::string(text, text + sqlite3_column_bytes(m_stmt.get(), field));
     }
 #endif
 
-- 
2.43.0


From dcfc67e26aed9bcf8273bddbb5d4cfb61d7370e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 06/80] fix: store numbers of a configuration without loss of
 precision

---
 pairinteraction/ConfParser.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.hpp b/pairinteraction/ConfParser.hpp
index 833b9a2..b116371 100644
--- a/pairinteraction/ConfParser.hpp
+++ b/pairinteraction/ConfParser.hpp
@@ -20,9 +20,11 @@
 #ifndef CONF_PARSER_H
 #define CONF_PARSER_H
 
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 /** \brief %Configuration storage
  *
@@ -47,7 +49,21 @@ private:
         template <typename T>
         value &operator<<(T const &rhs) {
             std::ostringstream os;
-            os << rhs;
+            if constexpr (std::is_floating_point<T>::value) {
+                // Use as many digits as needed to read back exactly the same number
+                for (int precision = std::numeric_limits<T>::digits10;
+                     precision <= std::numeric_limits<T>::max_digits10; ++precision) {
+                    os.str("");
+                    os.precision(precision);
+                    os << rhs;
+                    T lhs = 0;
+                    if (std::istringstream(os.str()) >> lhs && lhs == rhs) {
+                        break;
+                    }
+                }
+            } else {
+                os << rhs;
+            }
             m_value = os.str();
             return *this;
         }
-- 
2.43.0


From 5e3616ad667074dca4035ac970fac29f92e3fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 07/80] fix: save configuration keys that contain dots

---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..1adba45 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // Do not interpret dots within the key as path separators
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From 914f357770f45419d1be2b272a555c3790bf2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 08/80] fix: refuse surfaces that cut through the atoms at any
 angle

---
 pairinteraction/GreenTensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..d1cf881 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -37,10 +37,8 @@ void GreenTensor::addSurface(double d) {
         throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
     }
 
-    double angle = std::atan(x / z);
-
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
+    zA = d - z / 2.;
+    zB = d + z / 2.;
 
     if (zA < 0 || zB < 0) {
         throw std::runtime_error(
-- 
2.43.0


From f071a883771b8355104837abec3e5e9d920d9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 09/80] fix: take all components of the gradient of the image
 field into account

---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index d1cf881..6a40cee 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -182,6 +182,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 0, 0) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
@@ -221,6 +225,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 0) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
-- 
2.43.0


From a37ca2bae13d5c696f99911b50fb8d2f0db7a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 10/80] fix: include all magnetic quantum numbers when they are
 not limited

---
 pairinteraction/Basisnames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..61fe493 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -143,7 +143,7 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = std::fmax(startstate.m[0], startstate.m[1]) +
+        delta_m = std::fmax(std::fabs(startstate.m[0]), std::fabs(startstate.m[1])) +
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
 
@@ -208,7 +208,7 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
         delta_j = startstate.j + startstate.n + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = startstate.m + startstate.n + delta_n - 0.5;
+        delta_m = std::fabs(startstate.m) + startstate.n + delta_n - 0.5;
     }
 
     // loop over quantum numbers
-- 
2.43.0


From 7d22aa835c2f6fb00ba179dac19898b88e5e9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 11/80] fix: keep Whittaker functions of high principal quantum
 numbers in range

---
 pairinteraction/Wavefunction.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pairinteraction/Wavefunction.cpp b/pairinteraction/Wavefunction.cpp
index 08a67bd..2b1f4a2 100644
--- a/pairinteraction/Wavefunction.cpp
+++ b/pairinteraction/Wavefunction.cpp
@@ -138,8 +138,23 @@ double WhittakerW(double k, double m, double z) {
 }
 
 double RadialWFWhittaker(double r, double nu, int l) {
+#ifdef WITH_GSL
+    double const z = 2 * r / nu;
+    if (z == 0) {
+        return NAN;
+    }
+    // Keep track of the exponents separately, since for large principal quantum numbers the
+    // hypergeometric function and the normalization constant exceed the range of double
+    gsl_sf_result_e10 u;
+    gsl_sf_hyperg_U_e10_e(l + 1 - nu, 2 * l + 2, z, &u);
+    double const exponent = u.e10 * M_LN10 - .5 * z + (l + 1) * std::log(z) - std::log(nu) -
+        .5 * (std::lgamma(nu + l + 1) + std::lgamma(nu - l));
+    double const mantissa = std::abs(u.val) > 0 ? std::log(std::abs(u.val)) : -INFINITY;
+    return std::copysign(std::exp(mantissa + exponent), u.val);
+#else
     return 1 / std::sqrt(nu * nu * std::tgamma(nu + l + 1) * std::tgamma(nu - l)) *
         WhittakerW(nu, l + .5, 2 * r / nu);
+#endif
 }
 
 } // namespace whittaker_functions
-- 
2.43.0


From 2fde3767781cbd84f5ba43a385d454ad6bc0cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 12/80] fix: leave the cache usable after a failed calculation
 of matrix elements

---
 pairinteraction/MatrixElementCache.cpp | 22 ++++++++++++++++++++--
 pairinteraction/MatrixElementCache.hpp |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..b88a233 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -634,6 +634,26 @@ int MatrixElementCache::update() {
         return 0;
     }
 
+    try {
+        calculateMissing();
+    } catch (...) {
+        // Do not let the failure affect later queries
+        cache_radial_missing.clear();
+        cache_angular_missing.clear();
+        cache_reduced_commutes_s_missing.clear();
+        cache_reduced_commutes_l_missing.clear();
+        cache_reduced_multipole_missing.clear();
+        if (!dbname.empty() && sqlite3_get_autocommit(*db) == 0) {
+            sqlite3_exec(*db, "rollback transaction;", nullptr, nullptr, nullptr);
+        }
+        throw;
+    }
+
+    return 1;
+}
+
+void MatrixElementCache::calculateMissing() {
+
     // --- Load from database ---
     if (!dbname.empty()) {
 
@@ -961,8 +981,6 @@ int MatrixElementCache::update() {
     if (!dbname.empty()) {
         stmt->exec("commit transaction;");
     }
-
-    return 1;
 }
 
 size_t MatrixElementCache::size() {
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..65798ec 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -84,6 +84,7 @@ public:
 
 private:
     int update();
+    void calculateMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
     double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
-- 
2.43.0


From 9cd2b0da365871e3e687d2b11454a481562bbeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 13/80] fix: report failing precalculations to their caller

---
 pairinteraction/MatrixElementCache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index b88a233..cfb349a 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -623,6 +623,9 @@ void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, in
             }
         }
     }
+
+    // Calculate the elements now so that a failure is reported to the caller that requested them
+    this->update();
 }
 
 int MatrixElementCache::update() {
-- 
2.43.0


From f7256fb60c831e32028306e9c7a41f5591ef4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 14/80] fix: no magnetic dipole matrix elements between
 different orbital angular momenta

---
 pairinteraction/MatrixElementCache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index cfb349a..df492f6 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -366,6 +366,11 @@ double MatrixElementCache::getMagneticDipole(StateOne const &state_row, StateOne
         throw std::runtime_error("The species must be the same for the final and initial state.");
     }
 
+    // The magnetic dipole operator does not change the orbital angular momentum
+    if (state_row.getL() != state_col.getL()) {
+        return 0;
+    }
+
     const std::string &species = state_row.getSpecies();
     const float &s = state_row.getS();
 
-- 
2.43.0


From bf22630df2bbf7af1c19b6360143ec1240870555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 15/80] fix: do not mix matrix elements and settings of
 different defect databases

---
 pairinteraction/MatrixElementCache.cpp | 12 ++++++++++++
 pairinteraction/MatrixElementCache.hpp |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index df492f6..e4dc148 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -122,6 +122,17 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 }
 
 void MatrixElementCache::setDefectDB(std::string const &path) {
+    // Forget the radial matrix elements that were calculated with another database
+    if (path != defectdbname) {
+        for (auto it = cache_radial.begin(); it != cache_radial.end();) {
+            if (cache_radial_loaded.find(it->first) == cache_radial_loaded.end()) {
+                it = cache_radial.erase(it);
+            } else {
+                ++it;
+            }
+        }
+    }
+
     // Set path to user defined database for quantum defects and model potential parameters
     defectdbname = path;
 
@@ -200,6 +211,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
 
         cache_radial[key1] = val;
+        cache_radial_loaded.insert(key1);
     }
 }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 65798ec..95f23e6 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -192,6 +192,7 @@ private:
         cache_reduced_multipole;
 
     std::unordered_set<CacheKey_cache_radial, CacheKeyHasher_cache_radial> cache_radial_missing;
+    std::unordered_set<CacheKey_cache_radial, CacheKeyHasher_cache_radial> cache_radial_loaded;
     std::unordered_set<CacheKey_cache_angular, CacheKeyHasher_cache_angular> cache_angular_missing;
     std::unordered_set<CacheKey_cache_reduced_commutes, CacheKeyHasher_cache_reduced_commutes>
         cache_reduced_commutes_s_missing;
@@ -215,7 +216,7 @@ private:
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
-        ar &CEREAL_NVP(dbname);
+        ar &CEREAL_NVP(defectdbname) & CEREAL_NVP(dbname);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
             CEREAL_NVP(cache_reduced_multipole);
@@ -223,6 +224,7 @@ private:
             CEREAL_NVP(cache_reduced_commutes_s_missing) &
             CEREAL_NVP(cache_reduced_commutes_l_missing) &
             CEREAL_NVP(cache_reduced_multipole_missing);
+        ar &CEREAL_NVP(cache_radial_loaded);
 
         if (Archive::is_loading::value && !dbname.empty()) {
             // Open database
-- 
2.43.0


From 448ec542cddc7d89445476dd10ea8d61e094c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 16/80] fix: skip malformed rows of electric dipole tables

---
 pairinteraction/MatrixElementCache.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index e4dc148..f377f8e 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -163,6 +163,9 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
         std::vector<std::string> tk_vec(tk.begin(), tk.end());
 
         try {
+            if (tk_vec.size() < 7) {
+                throw std::invalid_argument("too few columns");
+            }
             int n1 = std::stoi(tk_vec[0]);
             int l1 = std::stoi(tk_vec[1]);
             float j1 = std::stof(tk_vec[2]);
@@ -170,6 +173,14 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             int l2 = std::stoi(tk_vec[4]);
             float j2 = std::stof(tk_vec[5]);
             double val = std::stod(tk_vec[6]);
+            auto valid = [&s](int n, int l, float j) {
+                return l >= 0 && l < n && n < ARB && std::fabs(j - l) <= s && j + l >= s &&
+                    std::fmod(j + l + s, 1) == 0;
+            };
+            if (!valid(n1, l1, j1) || !valid(n2, l2, j2) || std::abs(l1 - l2) != 1 ||
+                std::fabs(j1 - j2) > kappa_angular || j1 + j2 < kappa_angular) {
+                throw std::invalid_argument("no dipole-allowed pair of states");
+            }
 
             // Convert the radial matrix element to um
             val *= au2um;
-- 
2.43.0


From 7147e4fead916b7de090ae52bda0d8efff616988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 17/80] fix: report levels without bound Coulomb function
 instead of aborting

---
 pairinteraction/Wavefunction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/Wavefunction.cpp b/pairinteraction/Wavefunction.cpp
index 2b1f4a2..5ae9d2c 100644
--- a/pairinteraction/Wavefunction.cpp
+++ b/pairinteraction/Wavefunction.cpp
@@ -29,6 +29,7 @@
 #ifdef WITH_GSL
 #include <gsl/gsl_sf_hyperg.h>
 #endif
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -160,6 +161,10 @@ double RadialWFWhittaker(double r, double nu, int l) {
 } // namespace whittaker_functions
 
 Whittaker::Whittaker(QuantumDefect const &qd) : qd(qd) {
+    if (qd.nstar <= qd.l) {
+        throw std::runtime_error("There is no bound Coulomb function for this level.");
+    }
+
     double const xmin = 1;
     double const xmax = std::sqrt(2 * qd.n * (qd.n + 15));
     double const nsteps = std::ceil((xmax - xmin) / dx);
-- 
2.43.0


From 7b5d6112a8faa9bda93d2a04c19740f8b1f17f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 18/80] fix: check bounds and alignment when deserializing byte
 streams

---
 pairinteraction/Serializable.hpp | 226 +++++++------------------------
 1 file changed, 49 insertions(+), 177 deletions(-)

diff --git a/pairinteraction/Serializable.hpp b/pairinteraction/Serializable.hpp
index 0fd4fc2..84abdca 100644
--- a/pairinteraction/Serializable.hpp
+++ b/pairinteraction/Serializable.hpp
@@ -20,8 +20,12 @@
 #ifndef SERIALIZABLE_H
 #define SERIALIZABLE_H
 
+#include <cstdint>
+#include <cstring>
 #include <iterator>
 #include <memory>
+#include <stdexcept>
+#include <type_traits>
 #include <typeindex>
 #include <typeinfo>
 #include <unordered_map>
@@ -153,223 +157,91 @@ private:
         pbytes += sz;
     }
 
-    template <class T>
-    void deserialize(T &data, size_t num) {
-        uint16_t type = 0;
-
-        if (cpbytes + sizeof(uint16_t) > cpbytes_end) {
+    // Copy "num" stored values of type S to the output, which holds values of type T. The stored
+    // values are neither aligned nor trustworthy, so that they are copied bytewise after checking
+    // that they lie within the buffer.
+    template <class S, class T, class OutputIterator>
+    void read(size_t num, OutputIterator out) {
+        if ((std::is_integral<T>::value && std::is_floating_point<S>::value) ||
+            num > static_cast<size_t>(std::distance(cpbytes, cpbytes_end)) / sizeof(S)) {
             throw std::runtime_error(
                 "Corrupted data discovered."); // TODO use checksum of "bytes" (write checksum into
                                                // the beginning of "bytes")
         }
-        auto pbytes_reinterpreted = reinterpret_cast<const type_t *>(&(*cpbytes));
-        std::copy(pbytes_reinterpreted, pbytes_reinterpreted + 1, &type);
-        cpbytes += sizeof(uint16_t);
+        for (size_t i = 0; i < num; ++i) {
+            typename std::conditional<std::is_same<S, bool>::value, uint8_t, S>::type value;
+            static_assert(sizeof(value) == sizeof(S), "unexpected size");
+            std::memcpy(&value, &(*cpbytes), sizeof(S));
+            *out++ = static_cast<S>(value);
+            cpbytes += sizeof(S);
+        }
+    }
+
+    template <class T>
+    void deserialize(T &data, size_t num) {
+        uint16_t type = 0;
+        read<type_t, type_t>(1, &type);
 
         if (type == type_ids[std::type_index(typeid(int8_t))]) {
-            if (cpbytes + sizeof(int8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int8_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(int8_t) * num;
+            read<int8_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(int16_t))]) {
-            if (cpbytes + sizeof(int16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int16_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(int16_t) * num;
+            read<int16_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(int32_t))]) {
-            if (cpbytes + sizeof(int32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int32_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(int32_t) * num;
+            read<int32_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(int64_t))]) {
-            if (cpbytes + sizeof(int64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int64_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(int64_t) * num;
+            read<int64_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(uint8_t))]) {
-            if (cpbytes + sizeof(uint8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint8_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(uint8_t) * num;
+            read<uint8_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(uint16_t))]) {
-            if (cpbytes + sizeof(uint16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint16_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(uint16_t) * num;
+            read<uint16_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(uint32_t))]) {
-            if (cpbytes + sizeof(uint32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint32_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(uint32_t) * num;
+            read<uint32_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(uint64_t))]) {
-            if (cpbytes + sizeof(uint64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint64_t *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(uint64_t) * num;
+            read<uint64_t, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(float))]) {
-            if (cpbytes + sizeof(float) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const float *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(float) * num;
+            read<float, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(double))]) {
-            if (cpbytes + sizeof(double) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const double *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(double) * num;
+            read<double, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(char))]) {
-            if (cpbytes + sizeof(char) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const char *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(char) * num;
+            read<char, T>(num, &data);
         } else if (type == type_ids[std::type_index(typeid(bool))]) {
-            if (cpbytes + sizeof(bool) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const bool *>(&(*cpbytes));
-            std::copy(pbytes_reinterpreted, pbytes_reinterpreted + num, &data);
-            cpbytes += sizeof(bool) * num;
+            read<bool, T>(num, &data);
         } else {
             throw std::runtime_error("Corrupted data discovered.");
-            // auto pbytes_reinterpreted = reinterpret_cast<const T*>(&(*cpbytes));
-            // std::copy(pbytes_reinterpreted, pbytes_reinterpreted+num, &data);
-            // cpbytes += sizeof(T)*num;
         }
     }
 
     template <class T>
     void deserialize(std::vector<T> &data, size_t num) {
         uint16_t type = 0;
-
-        if (cpbytes + sizeof(uint16_t) > cpbytes_end) {
-            throw std::runtime_error("Corrupted data discovered.");
-        }
-        auto pbytes_reinterpreted = reinterpret_cast<const type_t *>(&(*cpbytes));
-        std::copy(pbytes_reinterpreted, pbytes_reinterpreted + 1, &type);
-        cpbytes += sizeof(uint16_t);
+        read<type_t, type_t>(1, &type);
 
         if (type == type_ids[std::type_index(typeid(int8_t))]) {
-            if (cpbytes + sizeof(int8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int8_t *>(&(*cpbytes));
-            std::vector<int8_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(int8_t) * num;
+            read<int8_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(int16_t))]) {
-            if (cpbytes + sizeof(int16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int16_t *>(&(*cpbytes));
-            std::vector<int16_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(int16_t) * num;
+            read<int16_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(int32_t))]) {
-            if (cpbytes + sizeof(int32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int32_t *>(&(*cpbytes));
-            std::vector<int32_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(int32_t) * num;
+            read<int32_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(int64_t))]) {
-            if (cpbytes + sizeof(int64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const int64_t *>(&(*cpbytes));
-            std::vector<int64_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(int64_t) * num;
+            read<int64_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(uint8_t))]) {
-            if (cpbytes + sizeof(uint8_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint8_t *>(&(*cpbytes));
-            std::vector<uint8_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(uint8_t) * num;
+            read<uint8_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(uint16_t))]) {
-            if (cpbytes + sizeof(uint16_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint16_t *>(&(*cpbytes));
-            std::vector<uint16_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(uint16_t) * num;
+            read<uint16_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(uint32_t))]) {
-            if (cpbytes + sizeof(uint32_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint32_t *>(&(*cpbytes));
-            std::vector<uint32_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(uint32_t) * num;
+            read<uint32_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(uint64_t))]) {
-            if (cpbytes + sizeof(uint64_t) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const uint64_t *>(&(*cpbytes));
-            std::vector<uint64_t> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(uint64_t) * num;
+            read<uint64_t, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(float))]) {
-            if (cpbytes + sizeof(float) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const float *>(&(*cpbytes));
-            std::vector<float> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(float) * num;
+            read<float, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(double))]) {
-            if (cpbytes + sizeof(double) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const double *>(&(*cpbytes));
-            std::vector<double> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(double) * num;
+            read<double, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(char))]) {
-            if (cpbytes + sizeof(char) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const char *>(&(*cpbytes));
-            std::vector<char> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(char) * num;
+            read<char, T>(num, std::back_inserter(data));
         } else if (type == type_ids[std::type_index(typeid(bool))]) {
-            if (cpbytes + sizeof(bool) * num > cpbytes_end) {
-                throw std::runtime_error("Corrupted data discovered.");
-            }
-            auto pbytes_reinterpreted = reinterpret_cast<const bool *>(&(*cpbytes));
-            std::vector<bool> vectmp(pbytes_reinterpreted, pbytes_reinterpreted + num);
-            data.insert(data.end(), vectmp.begin(), vectmp.end());
-            cpbytes += sizeof(bool) * num;
+            read<bool, T>(num, std::back_inserter(data));
         } else {
             throw std::runtime_error("Corrupted data discovered.");
-            // auto pbytes_reinterpreted = reinterpret_cast<const T*>(&(*cpbytes));
-            // std::copy(pbytes_reinterpreted, pbytes_reinterpreted+num,back_inserter(data));
-            // cpbytes += sizeof(T)*num;
         }
     }
 
-- 
2.43.0


From 927f3270a159caae9124e52bd9704da244fbdd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 19/80] fix: reload sparse matrices exactly and refuse damaged
 matrix files

---
 pairinteraction/Hamiltonianmatrix.cpp | 97 ++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..63dd9df 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -407,7 +407,46 @@ void Hamiltonianmatrix<Scalar>::doSerialization() {
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
     bytes = bytesin;
-    doDeserialization();
+    try {
+        doDeserialization();
+    } catch (...) {
+        // the matrices have not been changed, thus the bytes do not belong to them
+        bytes.clear();
+        throw;
+    }
+}
+
+template <typename Scalar>
+static Eigen::SparseMatrix<Scalar> buildMatrix(storage_idx_t rows, storage_idx_t cols,
+                                               const std::vector<Scalar> &data,
+                                               const std::vector<idx_t> &indices,
+                                               const std::vector<idx_t> &indptr) {
+    // check that the vectors describe a sparse matrix
+    bool valid = rows >= 0 && cols >= 0 && data.size() == indices.size() &&
+        indptr.size() == static_cast<size_t>(cols) &&
+        (indptr.empty() ? indices.empty() : indptr.front() == 0);
+    for (size_t col = 0; valid && col < indptr.size(); ++col) {
+        size_t begin = indptr[col];
+        size_t end = (col + 1 < indptr.size()) ? indptr[col + 1] : indices.size();
+        valid = begin <= end && end <= indices.size();
+        for (size_t idx = begin; valid && idx < end; ++idx) {
+            valid = indices[idx] < static_cast<idx_t>(rows) &&
+                (idx == begin || indices[idx - 1] < indices[idx]);
+        }
+    }
+    if (!valid) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
+    // build matrix
+    Eigen::SparseMatrix<Scalar> matrix(rows, cols);
+    matrix.makeCompressed();
+    matrix.resizeNonZeros(data.size());
+    std::copy(data.begin(), data.end(), matrix.valuePtr());
+    std::copy(indices.begin(), indices.end(), matrix.innerIndexPtr());
+    std::copy(indptr.begin(), indptr.end(), matrix.outerIndexPtr());
+    matrix.outerIndexPtr()[matrix.outerSize()] = data.size();
+    return matrix;
 }
 
 template <typename Scalar>
@@ -453,27 +492,27 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         throw std::runtime_error(msg);
     }
 
+    if (((entries_flags | basis_flags) & csr_not_csc) != 0 || s.position() != bytes.size() ||
+        (utils::is_complex<Scalar>::value &&
+         (entries_data_real.size() != entries_data_imag.size() ||
+          basis_data_real.size() != basis_data_imag.size()))) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
     // build matrix "entries_"
     std::vector<Scalar> entries_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
-    entries_ = Eigen::SparseMatrix<Scalar>(entries_rows, entries_cols);
-    entries_.makeCompressed();
-    entries_.resizeNonZeros(entries_data.size());
-    std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
-    std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
-    std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    Eigen::SparseMatrix<Scalar> entries_new =
+        buildMatrix(entries_rows, entries_cols, entries_data, entries_indices, entries_indptr);
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
     mergeComplex(basis_data_real, basis_data_imag, basis_data);
-    basis_ = Eigen::SparseMatrix<Scalar>(basis_rows, basis_cols);
-    basis_.makeCompressed();
-    basis_.resizeNonZeros(basis_data.size());
-    std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
-    std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
-    std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    Eigen::SparseMatrix<Scalar> basis_new =
+        buildMatrix(basis_rows, basis_cols, basis_data, basis_indices, basis_indptr);
+
+    entries_.swap(entries_new);
+    basis_.swap(basis_new);
 }
 
 template <typename Scalar>
@@ -497,12 +536,17 @@ void Hamiltonianmatrix<Scalar>::save(const std::string &fname) {
     // open file
     FILE *pFile;
     pFile = fopen(fname.c_str(), "wb");
+    if (pFile == nullptr) {
+        throw std::runtime_error("Matrix could not be written to file.");
+    }
 
     // write
-    fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+    size_t size_result = fwrite(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
 
     // close file
-    fclose(pFile);
+    if (fclose(pFile) != 0 || size_result != sizeof(byte_t) * bytes.size()) {
+        throw std::runtime_error("Matrix could not be written to file.");
+    }
 }
 
 template <typename Scalar>
@@ -511,21 +555,24 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
         // open file
         if (FILE *pFile = fopen(fname.c_str(), "rb")) {
             // obtain file size:
+            std::unique_ptr<FILE, int (*)(FILE *)> guard(pFile, &fclose); // closes the file
             fseek(pFile, 0, SEEK_END);
-            size_t size_file = ftell(pFile);
+            long size_file = ftell(pFile);
             rewind(pFile);
 
             // read
-            bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
-            if (size_result != size_file) {
+            bytes_t bytes_file;
+            if (size_file < 0) {
+                throw std::runtime_error("Matrix could not be read from file.");
+            }
+            bytes_file.resize(size_file / sizeof(byte_t));
+            size_t size_result =
+                fread(bytes_file.data(), 1, sizeof(byte_t) * bytes_file.size(), pFile);
+            if (size_result != static_cast<size_t>(size_file)) {
                 throw std::runtime_error("Matrix could not be read from file.");
             }
 
-            // close file
-            fclose(pFile);
-
-            doDeserialization();
+            deserialize(bytes_file);
 
             return true;
         }
-- 
2.43.0


From 0bdeec22fea2a1b3fafb25d835943ed248b2c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 20/80] fix: do not save outdated matrices after compress()

---
 pairinteraction/Hamiltonianmatrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 63dd9df..17d8618 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,8 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
+
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From 65bad328e1f19572f91b32c3dfe871e1de1a4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 21/80] fix: combine reflection symmetry with inversion or
 permutation symmetry

---
 pairinteraction/Hamiltonianmatrix.cpp | 56 ++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 17d8618..7f80f21 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -623,6 +623,34 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
         }
     }
 
+    // For each one-atom basis vector, the basis vector into which it is transformed by a reflection.
+    // Needed if the reflection symmetry is combined with the inversion or permutation symmetry, in
+    // order to take each set of basis vector pairs that is connected by the symmetries only once.
+    std::vector<int> reflected;
+    if (sym.reflection != NA && (sym.inversion != NA || sym.permutation != NA)) {
+        std::vector<Eigen::Triplet<Scalar>> triplets_reflection;
+        for (size_t idx = 0; idx < rhs.num_coordinates(); ++idx) {
+            const auto &state = basis_two->get(idx);
+            triplets_reflection.emplace_back(mapping[idx] % rhs.num_coordinates(), idx,
+                                             std::pow(-1, state.l[1] + state.m[1] - state.j[1]));
+        }
+        Eigen::SparseMatrix<Scalar> reflection(rhs.num_coordinates(), rhs.num_coordinates());
+        reflection.setFromTriplets(triplets_reflection.begin(), triplets_reflection.end());
+
+        Eigen::SparseMatrix<Scalar> overlap = rhs.basis().adjoint() * reflection * rhs.basis();
+        for (int k = 0; k < overlap.outerSize(); ++k) {
+            double maximum = 0;
+            reflected.push_back(k);
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(overlap, k); triple;
+                 ++triple) {
+                if (std::abs(triple.value()) > maximum) {
+                    maximum = std::abs(triple.value());
+                    reflected.back() = triple.row();
+                }
+            }
+        }
+    }
+
     ////////////////////////////////////////////////////////
     ////// Combine basis and entries ///////////////////////
     ////////////////////////////////////////////////////////
@@ -657,6 +685,18 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                 continue;
             }
 
+            // In case of inversion or permutation symmetry, together with reflection symmetry: skip
+            // half of the basis vector pairs that are not transformed into themselves
+            bool is_reflection_symmetric = false;
+            if (!reflected.empty()) {
+                auto pair = std::minmax(col_1, col_2);
+                auto pair_reflected = std::minmax(reflected[col_1], reflected[col_2]);
+                if (pair < pair_reflected) {
+                    continue;
+                }
+                is_reflection_symmetric = !(pair_reflected < pair);
+            }
+
             // TODO combine inversion and permutation symmetry (one variable "permuinversion"),
             // think about further simplifications
 
@@ -689,16 +729,16 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                         int parityL = std::pow(-1, state.l[0] + state.l[1]);
                         int parityJ = std::pow(-1, state.j[0] + state.j[1]);
                         int parityM = std::pow(-1, state.m[0] + state.m[1]);
+                        // If the reflection exchanges the two basis vectors, it changes the sign by
+                        int parityExchange = std::pow(-1, 2 * state.j[0]);
 
                         // In case of inversion and reflection symmetry: check whether the inversion
                         // symmetric state is already reflection symmetric
                         bool skip_reflection = false;
                         if (sym.inversion != NA && col_1 != col_2 && sym.reflection != NA &&
-                            mapping[row] ==
-                                rhs.num_coordinates() * triple_2.row() + triple_1.row()) {
+                            is_reflection_symmetric) {
                             if (((sym.inversion == EVEN) ? -parityL : parityL) !=
-                                ((sym.reflection == EVEN) ? parityL * parityJ * parityM
-                                                          : -parityL * parityJ * parityM)) {
+                                ((sym.reflection == EVEN) ? parityExchange : -parityExchange)) {
                                 continue; // the parity under inversion and reflection is different
                             }
                             skip_reflection =
@@ -708,11 +748,9 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                         // In case of permutation and reflection symmetry: check whether the
                         // permutation symmetric state is already reflection symmetric
                         if (sym.permutation != NA && col_1 != col_2 && sym.reflection != NA &&
-                            mapping[row] ==
-                                rhs.num_coordinates() * triple_2.row() + triple_1.row()) {
+                            is_reflection_symmetric) {
                             if (((sym.permutation == EVEN) ? -1 : 1) !=
-                                ((sym.reflection == EVEN) ? parityL * parityJ * parityM
-                                                          : -parityL * parityJ * parityM)) {
+                                ((sym.reflection == EVEN) ? parityExchange : -parityExchange)) {
                                 continue; // the parity under permutation and reflection is
                                           // different
                             }
@@ -740,7 +778,7 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                         }
 
                         // In case of reflection symmetry: skip half of the coordinates
-                        if (sym.reflection != NA && state.m[0] < 0 && !skip_reflection) {
+                        if (sym.reflection != NA && reflected.empty() && state.m[0] < 0) {
                             continue;
                         }
 
-- 
2.43.0


From e256e9324fd60a527f53701ae5f5be5ba5d957ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 22/80] fix: reflection symmetry of states with integer momenta

---
 pairinteraction/SystemOne.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..33de4ac 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -783,6 +783,13 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
         }
     }
 
+    // A state with zero magnetic quantum number is its own mirror image, so that it has a definite
+    // parity under reflection
+    if (sym_reflection_local != NA && state.getM() == 0 &&
+        std::pow(-1, state.getL() - state.getJ()) != ((sym_reflection_local == EVEN) ? 1 : -1)) {
+        return;
+    }
+
     // Store the energy of the unperturbed one atom state
     hamiltonian_triplets.emplace_back(idx, idx, energy);
 
@@ -797,8 +804,11 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
 
     // Add further entries to the current basis vector if required by symmetries
     if (sym_reflection_local != NA && state.getM() != 0) {
-        value *= std::pow(-1, state.getL() + state.getM() - state.getJ()) *
-            utils::imaginary_unit<Scalar>();
+        value *= std::pow(-1, state.getL() + state.getM() - state.getJ());
+        if (std::fmod(2 * state.getJ(), 2) != 0) {
+            // reflecting a half-integer momentum twice changes the sign
+            value *= utils::imaginary_unit<Scalar>();
+        }
         value *= (sym_reflection_local == EVEN) ? 1 : -1;
         // S_y is invariant under reflection through xz-plane
         // TODO is the s quantum number of importance here?
-- 
2.43.0


From f7c1766321cde2487628fba79f9439d2eb43bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 23/80] fix: keep the system unchanged if a field is refused

---
 pairinteraction/SystemOne.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 33de4ac..e3c4127 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -55,20 +55,24 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
+    // Transform the electric field into spherical coordinates, throws if this is not possible
+    std::unordered_map<int, Scalar> field_spherical;
+    this->changeToSphericalbasis(field, field_spherical);
+
     this->onParameterChange();
     efield = field;
-
-    // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
+    efield_spherical = field_spherical;
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
+    // Transform the magnetic field into spherical coordinates, throws if this is not possible
+    std::unordered_map<int, Scalar> field_spherical;
+    this->changeToSphericalbasis(field, field_spherical);
+
     this->onParameterChange();
     bfield = field;
-
-    // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
+    bfield_spherical = field_spherical;
 
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
         bfield_spherical[+1] * bfield_spherical[-1] * 2.;
-- 
2.43.0


From 1301274f29f57b52711e8fda24c170acc17f4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 24/80] fix: build interactions in the basis of the unperturbed
 Hamiltonian

---
 pairinteraction/SystemBase.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..478709e 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -517,6 +517,14 @@ void SystemBase<Scalar, State>::buildInteraction() {
     // Build basis
     this->buildBasis();
 
+    // Return to the basis, in which the interaction is expressed, if the current basis vectors belong
+    // to an outdated Hamiltonian
+    if (is_new_hamiltonian_required && is_interaction_already_contained) {
+        basisvectors = basisvectors_unperturbed_cache;
+        hamiltonian = hamiltonian_unperturbed_cache;
+        is_interaction_already_contained = false;
+    }
+
     // Initialize interaction
     this->initializeInteraction(); // this method checks by itself whether a new initialization
                                    // is required
-- 
2.43.0


From 02196fab99707a6710a25efdeac4c093e103ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 25/80] fix: keep the Green tensor approach enabled if
 disabling it is refused

---
 pairinteraction/SystemTwo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..3d94a87 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -88,12 +88,12 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
-    this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+    this->onParameterChange();
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
-- 
2.43.0


From 048bbe391ab7e174b365b831485ebf9f03b1012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 26/80] fix: no angular dipole-dipole interaction if only lower
 orders are requested

---
 pairinteraction/SystemTwo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 3d94a87..730d2ff 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -738,7 +738,7 @@ void SystemTwo<Scalar>::initializeInteraction() {
                 "higher order than dipole-quadrupole cannot be considered.");
         }
 
-    } else if (distance_x != 0) {
+    } else if (distance_x != 0 && ordermax >= 3) {
 
         // We know from before that distance_y is zero so that we can easily calculate the
         // interaction angle
-- 
2.43.0


From 0f2e0429f5db1fd5b180e8ef32428f861af75a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 27/80] fix: sign of the multipole interaction if the distance
 vector points along -z

---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 730d2ff..8ee0fc4 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1358,6 +1358,9 @@ void SystemTwo<Scalar>::addInteraction() {
     } else {
         for (unsigned int order = 3; order <= ordermax; ++order) {
             double powerlaw = 1. / std::pow(distance, order);
+            if (distance_z < 0 && order % 2 == 0) {
+                powerlaw *= -1; // odd under inversion of the distance vector
+            }
             this->hamiltonian += interaction_multipole[order] * powerlaw;
         }
     }
-- 
2.43.0


From f8e0b0495da62f4df02ed8763c3fee9ecf036907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 28/80] fix: keep the symmetries unchanged if incompatible ones
 are refused

---
 pairinteraction/SystemOne.cpp | 4 ++++
 pairinteraction/SystemTwo.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index e3c4127..b924ab1 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -138,8 +138,10 @@ void SystemOne<Scalar>::setRydIonDistance(double d) {
 template <typename Scalar>
 void SystemOne<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto sym_reflection_old = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = sym_reflection_old;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -152,8 +154,10 @@ void SystemOne<Scalar>::setConservedMomentaUnderRotation(const std::set<float> &
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto sym_rotation_old = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = sym_rotation_old;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 8ee0fc4..9521dff 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -155,8 +155,10 @@ void SystemTwo<Scalar>::setConservedParityUnderInversion(parity_t parity) {
 template <typename Scalar>
 void SystemTwo<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto sym_reflection_old = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = sym_reflection_old;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -173,8 +175,10 @@ void SystemTwo<Scalar>::setConservedMomentaUnderRotation(const std::set<int> &mo
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto sym_rotation_old = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = sym_rotation_old;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
-- 
2.43.0


From d05d84a6f52966a328b96d48af485a5d8f550b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 29/80] fix: combine reflection symmetry with rotation symmetry
 of pair states

---
 pairinteraction/SystemTwo.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 9521dff..f40f759 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -588,6 +588,40 @@ void SystemTwo<Scalar>::initializeBasis() {
     this->hamiltonian.setFromTriplets(hamiltonian_triplets.begin(), hamiltonian_triplets.end());
     hamiltonian_triplets.clear();
 
+    ////////////////////////////////////////////////////////////////////
+    /// Normalize vectors that were cut by the rotation symmetry ///////
+    ////////////////////////////////////////////////////////////////////
+
+    // Reflection symmetric one atom basis vectors contain opposite momenta, so that just a part of
+    // their product might have the requested momentum. Different products might share this part.
+    if (sym_reflection != NA && sym_rotation.count(ARB) == 0) {
+        Eigen::SparseMatrix<Scalar> overlaps = this->basisvectors.adjoint() * this->basisvectors;
+
+        std::vector<double> scaling(this->basisvectors.cols(), 0);
+        for (int idx = 0; idx < this->basisvectors.cols(); ++idx) {
+            double sqnorm = std::real(overlaps.coeff(idx, idx));
+            if (sqnorm <= this->threshold_for_sqnorm) {
+                continue;
+            }
+            scaling[idx] = 1 / std::sqrt(sqnorm);
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(overlaps, idx);
+                 triple && triple.row() < idx; ++triple) {
+                if (std::abs(triple.value()) * scaling[idx] * scaling[triple.row()] > 0.5) {
+                    scaling[idx] = 0; // the same vector has already been found
+                    break;
+                }
+            }
+        }
+
+        for (int idx = 0; idx < this->basisvectors.cols(); ++idx) {
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(this->basisvectors,
+                                                                            idx);
+                 triple; ++triple) {
+                triple.valueRef() *= scaling[idx];
+            }
+        }
+    }
+
     ////////////////////////////////////////////////////////////////////
     /// Remove vectors with too small norm /////////////////////////////
     ////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f61809ba05f0878c657b2bc1104695aca7718168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 30/80] fix: do not combine systems of different ion or surface
 parameters

---
 pairinteraction/SystemOne.cpp | 6 ++++++
 pairinteraction/SystemTwo.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index b924ab1..0fe3f07 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -745,6 +745,12 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge ||
+        ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax ||
+        distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error(
+            "The parameters of the ion must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index f40f759..0f2785c 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1526,6 +1526,10 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From 51152c5ff2fd60d4da277f6b383fd64afd2a1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 31/80] fix: keep the system unchanged if another one cannot be
 added

---
 pairinteraction/SystemBase.cpp | 62 ++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 478709e..709c8ff 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -848,10 +848,7 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     size_t size_this = basisvectors.cols();
     size_t size_other = system.basisvectors.cols();
 
-    // --- Combine system specific variables ---
-    this->incorporate(system);
-
-    // --- Combine universal variables ---
+    // --- Check universal variables ---
     if (memory_saving != system.memory_saving) {
         throw std::runtime_error(
             "The value of the variable 'memory_saving' must be the same for both systems.");
@@ -866,6 +863,42 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             "for both systems.");
     }
 
+    if ((basisvectors_unperturbed_cache.size() != 0) !=
+        (system.basisvectors_unperturbed_cache.size() != 0)) {
+        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
+                                 std::to_string(__LINE__) + ".");
+    }
+
+    if ((hamiltonian_unperturbed_cache.size() != 0) !=
+        (system.hamiltonian_unperturbed_cache.size() != 0)) {
+        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
+                                 std::to_string(__LINE__) + ".");
+    }
+
+    // --- Check if basis vectors are orthogonal ---
+    {
+        std::vector<Eigen::Triplet<Scalar>> transformator_triplets;
+        for (const auto &entry : system.states) {
+            auto state_iter = states.template get<1>().find(entry.state);
+            if (state_iter != states.template get<1>().end()) {
+                transformator_triplets.emplace_back(state_iter->idx, entry.idx, 1);
+            }
+        }
+
+        Eigen::SparseMatrix<Scalar> transformator(basisvectors.rows(), system.basisvectors.rows());
+        transformator.setFromTriplets(transformator_triplets.begin(), transformator_triplets.end());
+
+        Eigen::SparseMatrix<Scalar> tmp = transformator * system.basisvectors;
+        tmp = (basisvectors.adjoint() * tmp).pruned(1e-12, 1);
+        if (tmp.nonZeros() != 0) {
+            throw std::runtime_error(
+                "Two systems cannot be combined if their basis vectors are not orthogonal.");
+        }
+    }
+
+    // --- Combine system specific variables ---
+    this->incorporate(system);
+
     // --- Combine states and build transformators ---
     Eigen::SparseMatrix<Scalar> transformator;
     {
@@ -893,12 +926,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     basisvectors.conservativeResize(states.size(), size_this + size_other);
     basisvectors.rightCols(size_other) = transformator * system.basisvectors;
 
-    if ((basisvectors_unperturbed_cache.size() != 0) !=
-        (system.basisvectors_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache.conservativeResize(
             states.size(),
@@ -907,15 +934,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             transformator * system.basisvectors_unperturbed_cache;
     }
 
-    // --- Check if basis vectors are orthogonal ---
-    Eigen::SparseMatrix<Scalar> tmp =
-        (basisvectors.leftCols(size_this).adjoint() * basisvectors.rightCols(size_other))
-            .pruned(1e-12, 1);
-    if (tmp.nonZeros() != 0) {
-        throw std::runtime_error(
-            "Two systems cannot be combined if their basis vectors are not orthogonal.");
-    }
-
     // --- Combine hamiltonian and hamiltonian_unperturbed_cache ---
     Eigen::SparseMatrix<Scalar> shifter(hamiltonian.rows() + system.hamiltonian.rows(),
                                         system.hamiltonian.rows());
@@ -934,12 +952,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
                                    hamiltonian.cols() + system.hamiltonian.cols());
     hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
 
-    if ((hamiltonian_unperturbed_cache.size() != 0) !=
-        (system.hamiltonian_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (hamiltonian_unperturbed_cache.size() != 0) {
         hamiltonian_unperturbed_cache.conservativeResize(
             hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
-- 
2.43.0


From 246584794dbb77b9e0b856c2fb94f0858045eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 32/80] fix: out-of-bounds write if symmetries lead out of the
 product basis

---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 0f2785c..daeaa3a 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1637,6 +1637,9 @@ void SystemTwo<Scalar>::addBasisvectors(const StateTwo &state, const size_t &col
     }
 
     basisvectors_triplets.emplace_back(row_new, col_new, value_new);
+    if (row_new >= sqnorm_list.size()) {
+        sqnorm_list.resize(row_new + 1, 0); // symmetries might lead out of the product basis
+    }
     sqnorm_list[row_new] += std::pow(std::abs(value_new), 2);
 }
 
-- 
2.43.0


From c8ce9de497358d5721fb11078c676f27cae3d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 33/80] fix: phase of entries of the Hamiltonian

getHamiltonianEntry() returned the complex conjugate, setHamiltonianEntry() subtracted it.
---
 pairinteraction/SystemBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 709c8ff..5da3945 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1267,7 +1267,7 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    return basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 }
 
 template <class Scalar, class State>
@@ -1278,7 +1278,7 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From d9f3353dc9a2e8e1dd82f3152b9d61f58847eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 34/80] fix: accept axes that are orthogonal up to rounding
 errors

---
 pairinteraction/SystemBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 5da3945..734a916 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1528,7 +1528,7 @@ SystemBase<Scalar, State>::buildRotator(std::array<double, 3> to_z_axis,
     auto to_z_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_z_axis[0]).normalized();
     auto to_y_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_y_axis[0]).normalized();
 
-    double tolerance = 1e-16;
+    double tolerance = 1e-12;
     if (std::abs(to_z_axis_mapped.dot(to_y_axis_mapped)) > tolerance) {
         throw std::runtime_error("The z-axis and the y-axis are not orhogonal.");
     }
-- 
2.43.0


From ce70c467e92b401e81fb75d4b27a985a87890fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 35/80] fix: overlap with pair states of which one atom is
 generalized

---
 pairinteraction/SystemBase.cpp | 2 +-
 pairinteraction/utils.hpp      | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 734a916..c377070 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -238,7 +238,7 @@ SystemBase<Scalar, State>::getOverlap(const std::vector<State> &generalizedstate
     states_indices.reserve(generalizedstates.size());
 
     for (const auto &searched_state : generalizedstates) {
-        if (utils::is_true(searched_state.isGeneralized())) {
+        if (utils::is_any_true(searched_state.isGeneralized())) {
             for (const auto &state : states) {
                 if (state.state ^ searched_state) { // Check whether state.state is contained in
                                                     // searched_state
diff --git a/pairinteraction/utils.hpp b/pairinteraction/utils.hpp
index 6e8c03f..0a6e06f 100644
--- a/pairinteraction/utils.hpp
+++ b/pairinteraction/utils.hpp
@@ -55,6 +55,12 @@ inline bool is_true(const T &val) {
 }
 inline bool is_true(bool val) { return val; }
 
+template <typename T>
+inline bool is_any_true(const T &val) {
+    return std::any_of(val.begin(), val.end(), [](bool i) { return i; });
+}
+inline bool is_any_true(bool val) { return val; }
+
 template <typename T>
 inline typename std::enable_if<!is_complex<T>::value, T>::type imaginary_unit() {
     throw std::runtime_error(
-- 
2.43.0


From adf93c35fca0c53daaa69ea6075cf6305ce2f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 36/80] fix: refuse searches for more basis vectors than there
 are

---
 pairinteraction/SystemBase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index c377070..8eba410 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1048,6 +1048,11 @@ void SystemBase<Scalar, State>::applySchriefferWolffTransformation(
 
     // --- Find basisvectors which corresponds to the basis vectors of system0 ---
 
+    if (low_energy_basis0.cols() > basisvectors.cols()) {
+        throw std::runtime_error(
+            "The unperturbed system contains more basis vectors than the perturbed system.");
+    }
+
     // Get overlaps between basis vectors
     Eigen::VectorX<double> overlap = (basisvectors.adjoint() * low_energy_basis0).cwiseAbs2() *
         Eigen::VectorX<double>::Ones(low_energy_basis0.cols());
@@ -1200,6 +1205,10 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
     Eigen::VectorX<double> overlap_total =
         Eigen::VectorX<double>::Ones(canonicalbasis.cols()).transpose() * overlap;
 
+    if (canonicalbasis.cols() > basisvectors.cols()) {
+        throw std::runtime_error("There is a state for which no basis vector could be found.");
+    }
+
     // Get indices of the canonicalbasis.cols() largest entries
     std::vector<size_t> indices_available(basisvectors.cols());
     std::iota(indices_available.begin(), indices_available.end(), 0);
-- 
2.43.0


From dff28bf3e2d87c45e2fe22b8f35128891b1f3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 37/80] fix: refuse to look up the main state of an empty basis
 vector

---
 pairinteraction/SystemBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 8eba410..c8286f1 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -381,6 +381,10 @@ std::vector<State> SystemBase<Scalar, State>::getMainStates() {
             }
         }
 
+        if (maxval == -1) {
+            throw std::runtime_error("There is a basis vector to which no state contributes.");
+        }
+
         states_with_maxval.push_back(states[row_with_maxval].state);
     }
 
-- 
2.43.0


From 3fed4a84f7f1519de0160ab3b93955eab3987185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 38/80] fix: restrict the eigenvectors, not the unperturbed
 basis vectors

After a diagonalization, restrictions were applied to the unperturbed basis
vectors of the same index, so that changing a parameter lost the selection.
---
 pairinteraction/SystemBase.cpp | 45 ++++++++++++++++++++++++++++++++++
 pairinteraction/SystemBase.hpp |  2 ++
 2 files changed, 47 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index c8286f1..60b79c3 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -814,6 +814,9 @@ void SystemBase<Scalar, State>::unitarize() {
     // Delete caches as they are no longer meaningful
     basisvectors_unperturbed_cache.resize(0, 0);
     hamiltonian_unperturbed_cache.resize(0, 0);
+    if (is_interaction_already_contained) {
+        this->deleteInteraction();
+    }
 }
 
 template <class Scalar, class State>
@@ -1455,6 +1458,42 @@ bool SystemBase<Scalar, State>::checkIsEnergyValid(double e) {
 /// Helper methods to change the set of basis vectors //////////////
 ////////////////////////////////////////////////////////////////////
 
+template <class Scalar, class State>
+void SystemBase<Scalar, State>::updateUnperturbedCache() {
+    // Check whether the basis vectors differ from those of the unperturbed Hamiltonian, e.g. because
+    // the Hamiltonian has been diagonalized
+    if (!is_interaction_already_contained || basisvectors_unperturbed_cache.size() == 0 ||
+        (basisvectors_unperturbed_cache.cols() == basisvectors.cols() &&
+         (basisvectors_unperturbed_cache - basisvectors).norm() == 0)) {
+        return;
+    }
+
+    // Get the transformator from the unperturbed to the current basis vectors
+    Eigen::SparseMatrix<Scalar> transformator;
+    if (this->checkIsUnitary(basisvectors_unperturbed_cache)) {
+        transformator = (basisvectors_unperturbed_cache.adjoint() * basisvectors).pruned(1e-16, 1);
+    } else {
+        // States have been removed from the basis vectors
+        Eigen::MatrixX<Scalar> mat = basisvectors_unperturbed_cache;
+        Eigen::ColPivHouseholderQR<Eigen::MatrixX<Scalar>> solver(mat);
+        if (solver.rank() < mat.cols()) {
+            // Without caches, the parameters cannot be changed anymore
+            basisvectors_unperturbed_cache.resize(0, 0);
+            hamiltonian_unperturbed_cache.resize(0, 0);
+            this->deleteInteraction();
+            return;
+        }
+        mat = solver.solve(Eigen::MatrixX<Scalar>(basisvectors));
+        transformator = mat.sparseView();
+    }
+
+    // Express the unperturbed Hamiltonian and the interaction in the current basis
+    basisvectors_unperturbed_cache = basisvectors;
+    hamiltonian_unperturbed_cache =
+        transformator.adjoint() * hamiltonian_unperturbed_cache * transformator;
+    this->transformInteraction(transformator);
+}
+
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::applyLeftsideTransformator(
     std::vector<Eigen::Triplet<Scalar>> &triplets_transformator) {
@@ -1486,6 +1525,9 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::applyRightsideTransformator(
     Eigen::SparseMatrix<Scalar> &transformator) {
+    // Ensure that the transformator applies to the unperturbed Hamiltonian, too
+    this->updateUnperturbedCache();
+
     // Apply transformator in order to remove columns from the basisvector matrix (i.e. basis
     // vectors)
     basisvectors = basisvectors * transformator;
@@ -1592,6 +1634,9 @@ void SystemBase<Scalar, State>::forgetRestrictions() {
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::updateEverything() {
 
+    // Ensure that restrictions apply to the current basis vectors
+    this->updateUnperturbedCache();
+
     if (!range_n.empty() || !range_l.empty() || !range_j.empty() || !range_m.empty()) {
 
         ////////////////////////////////////////////////////////////////////
diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 4482306..8add85c 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -345,6 +345,8 @@ protected:
     /// Helper methods to change the set of basis vectors //////////////
     ////////////////////////////////////////////////////////////////////
 
+    void updateUnperturbedCache();
+
     void applyLeftsideTransformator(std::vector<Eigen::Triplet<Scalar>> &triplets_transformator);
 
     void applyLeftsideTransformator(Eigen::SparseMatrix<Scalar> &transformator);
-- 
2.43.0


From 8cf97808eeb74f9720c08fb3367905477029e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 39/80] fix: rotate the interaction in the basis in which it is
 expressed

---
 pairinteraction/SystemBase.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 60b79c3..b180b1f 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -836,14 +836,28 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
     // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
+    auto &basisvectors_interaction = // basis vectors in which the interaction is expressed
+        (is_interaction_already_contained && basisvectors_unperturbed_cache.size() != 0)
+        ? basisvectors_unperturbed_cache
+        : basisvectors;
+    bool is_basis_complete =
+        basisvectors_interaction.rows() == basisvectors_interaction.cols() &&
+        this->checkIsUnitary(basisvectors_interaction);
+
+    if (is_basis_complete) {
+        this->transformInteraction(basisvectors_interaction.adjoint());
+    } else {
+        this->deleteInteraction(); // will be rebuilt if required
+    }
 
     basisvectors = transformator * basisvectors;
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(basisvectors);
+    if (is_basis_complete) {
+        this->transformInteraction(basisvectors_interaction);
+    }
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 4ca0892575d861bf1c31fd6d99b55d78835e02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 40/80] fix: keep the states if unitarize() fails

---
 pairinteraction/SystemBase.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index b180b1f..ce6c358 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -781,7 +781,7 @@ void SystemBase<Scalar, State>::unitarize() {
     // Loop over basisvectors
     size_t num_basisvectors = basisvectors.outerSize();
 
-    states.clear();
+    typename states_set<State>::type states_new;
     size_t idx_new = 0;
     for (int k = 0; k < basisvectors.outerSize(); ++k) { // col == idx_vector
         size_t hashvalue = hashvalue_states;
@@ -794,14 +794,17 @@ void SystemBase<Scalar, State>::unitarize() {
         // Rewrite basisvectors as states
         std::stringstream ss;
         ss << std::hex << hashvalue;
-        states.push_back(enumerated_state<State>(idx_new++, createStateFromLabel<State>(ss.str())));
+        states_new.push_back(
+            enumerated_state<State>(idx_new++, createStateFromLabel<State>(ss.str())));
     }
-    states.shrink_to_fit();
+    states_new.shrink_to_fit();
 
-    if (num_basisvectors != states.size()) {
+    if (num_basisvectors != states_new.size()) {
         throw std::runtime_error("A hash collision occurred.");
     }
 
+    states = states_new;
+
     // Adapt basisvectors
     basisvectors.resize(states.size(), states.size());
     basisvectors.setZero();
-- 
2.43.0


From 44dd4e4c95cc6d4edcc48d457ab2310937f9b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 41/80] fix: save and load all members of the one-atom and pair
 systems

---
 pairinteraction/SystemOne.cpp | 4 +++-
 pairinteraction/SystemOne.hpp | 3 ++-
 pairinteraction/SystemTwo.hpp | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 0fe3f07..aff3ac7 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -34,7 +34,9 @@
 
 template <typename Scalar>
 SystemOne<Scalar>::SystemOne()
-    : efield({{0, 0, 0}}), bfield({{0, 0, 0}}), sym_rotation({static_cast<float>(ARB)}) {}
+    : efield({{0, 0, 0}}), bfield({{0, 0, 0}}), diamagnetism(true), charge(0), ordermax(0),
+      distance(std::numeric_limits<double>::max()), sym_reflection(NA),
+      sym_rotation({static_cast<float>(ARB)}) {}
 
 template <typename Scalar>
 SystemOne<Scalar>::SystemOne(std::string species, MatrixElementCache &cache)
diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..f1d91e7 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -170,11 +170,12 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateOne>>(this));
         ar &CEREAL_NVP(species);
         ar &CEREAL_NVP(efield) & CEREAL_NVP(bfield) & CEREAL_NVP(diamagnetism) &
+            CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance) &
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..25b3e10 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -186,6 +186,8 @@ private:
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
+        ar &CEREAL_NVP(minimal_le_roy_radius) & CEREAL_NVP(GTbool) &
+            CEREAL_NVP(one_atom_basisvectors_indices);
         ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
             CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
-- 
2.43.0


From 11b8fc3237bb6e04fac941c80510a4be7c57e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 42/80] fix: refuse to load a system without a cache

---
 pairinteraction/SystemBase.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 8add85c..2bacadc 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -36,6 +36,7 @@
 #include <complex>
 #include <functional>
 #include <set>
+#include <stdexcept>
 #include <vector>
 
 class MatrixElementCache;
@@ -396,6 +397,9 @@ private:
 
     template <class Archive>
     void serialize(Archive &ar, unsigned int /*version*/) {
+        if (m_cache == nullptr) {
+            throw std::runtime_error("A system can only be loaded into a system that has a cache.");
+        }
         ar &cereal::make_nvp("cache", *m_cache) & CEREAL_NVP(threshold_for_sqnorm);
         ar &CEREAL_NVP(energy_min) & CEREAL_NVP(energy_max) & CEREAL_NVP(range_n) &
             CEREAL_NVP(range_l) & CEREAL_NVP(range_j) & CEREAL_NVP(range_m) &
-- 
2.43.0


From 48df609c6a05249a02005fc535ba62c8fd6ef55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 43/80] fix: do not reuse the interaction of a basis of which
 nothing is left

---
 pairinteraction/SystemBase.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index ce6c358..9255ab8 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -554,6 +554,13 @@ void SystemBase<Scalar, State>::buildBasis() {
     // Check whether the basis does not exist
     if (states.empty()) {
 
+        // If restrictions left no states of an earlier basis, forget what was derived from it
+        this->deleteInteraction();
+        basisvectors_unperturbed_cache = Eigen::SparseMatrix<Scalar>();
+        hamiltonian_unperturbed_cache = Eigen::SparseMatrix<Scalar>();
+        is_new_hamiltonian_required |= is_interaction_already_contained;
+        is_interaction_already_contained = false;
+
         // Initialize the basis
         this->initializeBasis();
 
-- 
2.43.0


From 30f6fbdd85093f561a870bcd584b24401eba9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 44/80] fix: refuse indices of one-atom basis vectors that do
 not exist

---
 pairinteraction/SystemTwo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index daeaa3a..a8e32dc 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -284,6 +284,12 @@ void SystemTwo<Scalar>::initializeBasis() {
     std::vector<std::array<size_t, 2>> pairs;
     if (!one_atom_basisvectors_indices.empty()) {
         pairs = one_atom_basisvectors_indices;
+        for (const auto &[col_1, col_2] : pairs) {
+            if (col_1 >= system1.getNumBasisvectors() || col_2 >= system2.getNumBasisvectors()) {
+                throw std::runtime_error("There is no pair of one-atom basis vectors with indices [" +
+                                         std::to_string(col_1) + "," + std::to_string(col_2) + "].");
+            }
+        }
     } else {
         pairs.reserve(system1.getNumBasisvectors() * system2.getNumBasisvectors());
         for (size_t col_1 = 0; col_1 < system1.getNumBasisvectors(); ++col_1) {
-- 
2.43.0


From 039f767a554f88dce3d38d7e16aa25d16508e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 45/80] fix: intermediate states of dispersion matrix elements
 that change l by two

---
 pairinteraction/PerturbativeInteraction.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 9dd04e9..839d1e5 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -175,11 +175,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
                     } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
+                               state_col.getL(0) - 1 < n0) {
+                        array_l0.push_back(state_col.getL(0) - 1);
+                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
                                state_col.getL(0) < n0 - 1) {
                         array_l0.push_back(state_col.getL(0) + 1);
-                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
-                               state_col.getL(0) > 0) {
-                        array_l0.push_back(state_col.getL(0) - 1);
                     }
                     for (int l0 : array_l0) {
 
@@ -192,11 +192,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
                         } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
+                                   state_col.getL(1) - 1 < n1) {
+                            array_l1.push_back(state_col.getL(1) - 1);
+                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
                                    state_col.getL(1) < n1 - 1) {
                             array_l1.push_back(state_col.getL(1) + 1);
-                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
-                                   state_col.getL(1) > 0) {
-                            array_l1.push_back(state_col.getL(1) - 1);
                         }
                         for (int l1 : array_l1) {
 
-- 
2.43.0


From 4e5498c4256ac30cf90f344f07f83a99ed2fa99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 46/80] fix: no intermediate states with l >= n in dispersion
 coefficients

---
 pairinteraction/PerturbativeInteraction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 839d1e5..4fcfb77 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -44,7 +44,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
         for (int n1 = state.getN(1) - deltaN; n1 <= state.getN(1) + deltaN; ++n1) {
 
             std::vector<int> array_l0;
-            if (state.getL(0) > 0) {
+            if (state.getL(0) > 0 && state.getL(0) - 1 < n0) {
                 array_l0.push_back(state.getL(0) - 1);
             }
             if (state.getL(0) < n0 - 1) {
@@ -53,7 +53,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
             for (int l0 : array_l0) {
 
                 std::vector<int> array_l1;
-                if (state.getL(1) > 0) {
+                if (state.getL(1) > 0 && state.getL(1) - 1 < n1) {
                     array_l1.push_back(state.getL(1) - 1);
                 }
                 if (state.getL(1) < n1 - 1) {
@@ -171,7 +171,7 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) < n0 - 1) {
                             array_l0.push_back(state_col.getL(0) + 1);
                         }
-                        if (state_col.getL(0) > 0) {
+                        if (state_col.getL(0) > 0 && state_col.getL(0) - 1 < n0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
                     } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
@@ -188,7 +188,7 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) < n1 - 1) {
                                 array_l1.push_back(state_col.getL(1) + 1);
                             }
-                            if (state_col.getL(1) > 0) {
+                            if (state_col.getL(1) > 0 && state_col.getL(1) - 1 < n1) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
                         } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
-- 
2.43.0


From 21e3041114f98d11e7a31d37119046ef71373a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 47/80] fix: complete sum over the intermediate angular momenta
 of dispersion coefficients for spin 1

---
 pairinteraction/PerturbativeInteraction.cpp | 46 +++++++--------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 4fcfb77..2a48176 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -62,30 +62,16 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
                 for (int l1 : array_l1) {
 
                     std::set<float> array_j0;
-                    if (std::abs(std::abs(l0 - state.getS(0)) - state.getJ(0)) < 2) {
-                        array_j0.insert(std::abs(l0 - state.getS(0)));
-                    }
-                    if (std::abs(l0 + state.getS(0) - state.getJ(0)) < 2) {
-                        array_j0.insert(l0 + state.getS(0));
-                    }
-                    if (array_j0.size() == 2) {
-                        for (float j0 = std::abs(l0 - state.getS(0)) + 1; j0 < l0 + state.getS(0);
-                             ++j0) {
+                    for (float j0 = std::abs(l0 - state.getS(0)); j0 <= l0 + state.getS(0); ++j0) {
+                        if (std::abs(j0 - state.getJ(0)) < 2) {
                             array_j0.insert(j0);
                         }
                     }
                     for (float j0 : array_j0) {
 
                         std::set<float> array_j1;
-                        if (std::abs(std::abs(l1 - state.getS(1)) - state.getJ(1)) < 2) {
-                            array_j1.insert(std::abs(l1 - state.getS(1)));
-                        }
-                        if (std::abs(l1 + state.getS(1) - state.getJ(1)) < 2) {
-                            array_j1.insert(l1 + state.getS(1));
-                        }
-                        if (array_j1.size() == 2) {
-                            for (float j1 = std::abs(l1 - state.getS(1)) + 1;
-                                 j1 < l1 + state.getS(1); ++j1) {
+                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1); ++j1) {
+                            if (std::abs(j1 - state.getJ(1)) < 2) {
                                 array_j1.insert(j1);
                             }
                         }
@@ -201,24 +187,20 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         for (int l1 : array_l1) {
 
                             std::set<float> array_j0;
-                            if (std::abs(std::abs(l0 - s[0]) - state_col.getJ(0)) < 2 &&
-                                std::abs(std::abs(l0 - s[0]) - state_row.getJ(0)) < 2) {
-                                array_j0.insert(std::abs(l0 - s[0]));
-                            }
-                            if (std::abs(l0 + s[0] - state_col.getJ(0)) < 2 &&
-                                std::abs(l0 + s[0] - state_row.getJ(0)) < 2) {
-                                array_j0.insert(l0 + s[0]);
+                            for (float j0 = std::abs(l0 - s[0]); j0 <= l0 + s[0]; ++j0) {
+                                if (std::abs(j0 - state_col.getJ(0)) < 2 &&
+                                    std::abs(j0 - state_row.getJ(0)) < 2) {
+                                    array_j0.insert(j0);
+                                }
                             }
                             for (float j0 : array_j0) {
 
                                 std::set<float> array_j1;
-                                if (std::abs(std::abs(l1 - s[1]) - state_col.getJ(1)) < 2 &&
-                                    std::abs(std::abs(l1 - s[1]) - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(std::abs(l1 - s[1]));
-                                }
-                                if (std::abs(l1 + s[1] - state_col.getJ(1)) < 2 &&
-                                    std::abs(l1 + s[1] - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(l1 + s[1]);
+                                for (float j1 = std::abs(l1 - s[1]); j1 <= l1 + s[1]; ++j1) {
+                                    if (std::abs(j1 - state_col.getJ(1)) < 2 &&
+                                        std::abs(j1 - state_row.getJ(1)) < 2) {
+                                        array_j1.insert(j1);
+                                    }
                                 }
                                 for (float j1 : array_j1) {
 
-- 
2.43.0


From b93012f6b6f16837b7285c92d6d4723a5bb5d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 48/80] fix: no dipole interaction between states of different
 species

---
 pairinteraction/PerturbativeInteraction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 2a48176..553973e 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -280,6 +280,11 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC3(const std::vector<StateTwo
         for (size_t idx_col = idx_row + 1; idx_col < states.size(); ++idx_col) {
             auto &state_col = states[idx_col];
 
+            if (state_row.getSpecies(0) != state_col.getSpecies(0) ||
+                state_row.getSpecies(1) != state_col.getSpecies(1)) {
+                continue;
+            }
+
             int q0 = state_row.getM(0) - state_col.getM(0);
             int q1 = state_row.getM(1) - state_col.getM(1);
 
-- 
2.43.0


From f089b95497308e242373c9f701b768c4d47c05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 49/80] fix: add systems whose Hamiltonian has been
 canonicalized

---
 pairinteraction/SystemBase.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 9255ab8..b71c803 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -966,29 +966,27 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     }
 
     // --- Combine hamiltonian and hamiltonian_unperturbed_cache ---
-    Eigen::SparseMatrix<Scalar> shifter(hamiltonian.rows() + system.hamiltonian.rows(),
-                                        system.hamiltonian.rows());
-    {
+    // The numbers of rows can be different as the cached matrix is not canonicalized
+    auto combine_block_diagonal = [](Eigen::SparseMatrix<Scalar> &matrix,
+                                     const Eigen::SparseMatrix<Scalar> &other) {
+        Eigen::SparseMatrix<Scalar> shifter(matrix.rows() + other.rows(), other.rows());
         std::vector<Eigen::Triplet<Scalar>> shifter_triplets;
-        shifter_triplets.reserve(system.hamiltonian.rows());
+        shifter_triplets.reserve(other.rows());
 
-        for (Eigen::Index idx = 0; idx < system.hamiltonian.rows(); ++idx) {
-            shifter_triplets.emplace_back(hamiltonian.rows() + idx, idx, 1);
+        for (Eigen::Index idx = 0; idx < other.rows(); ++idx) {
+            shifter_triplets.emplace_back(matrix.rows() + idx, idx, 1);
         }
 
         shifter.setFromTriplets(shifter_triplets.begin(), shifter_triplets.end());
-    }
 
-    hamiltonian.conservativeResize(hamiltonian.rows() + system.hamiltonian.rows(),
-                                   hamiltonian.cols() + system.hamiltonian.cols());
-    hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
+        matrix.conservativeResize(matrix.rows() + other.rows(), matrix.cols() + other.cols());
+        matrix.rightCols(other.cols()) = shifter * other;
+    };
+
+    combine_block_diagonal(hamiltonian, system.hamiltonian);
 
     if (hamiltonian_unperturbed_cache.size() != 0) {
-        hamiltonian_unperturbed_cache.conservativeResize(
-            hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
-            hamiltonian_unperturbed_cache.cols() + system.hamiltonian_unperturbed_cache.cols());
-        hamiltonian_unperturbed_cache.rightCols(system.hamiltonian_unperturbed_cache.cols()) =
-            shifter * system.hamiltonian_unperturbed_cache;
+        combine_block_diagonal(hamiltonian_unperturbed_cache, system.hamiltonian_unperturbed_cache);
     }
 }
 
-- 
2.43.0


From 0fb7fe6eb51d9fabda9b4bce56296ec6d22d7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 50/80] fix: store matrix elements of the backend with full
 precision

---
 pairinteraction/MatrixElements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..4e27747 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -252,6 +252,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::max_digits10); // store the exact values
 
     stmt.exec("begin transaction;");
 
-- 
2.43.0


From cd665eb57845a18461a44c97c7cb30b9dbf4a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 51/80] fix: access the result database of the backend from one
 thread at a time

---
 pairinteraction/HamiltonianOne.cpp | 106 ++++++++++++++---------------
 pairinteraction/HamiltonianTwo.cpp | 106 ++++++++++++++---------------
 2 files changed, 106 insertions(+), 106 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 2a8a45b..bbe1608 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -498,70 +498,70 @@ void HamiltonianOne<Scalar>::build() {
         std::stringstream query;
         std::string spacer;
 
-        if (flag_perhapsmissingtable) {
-            query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
-                     "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
-                     "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
-            for (auto p : conf) {
-                query << ", " << p.first << " text";
-            }
-            query << ", UNIQUE (";
-            for (auto p : conf) {
-                query << spacer << p.first;
-                spacer = ", ";
-            }
-            query << "));";
-
-            flag_perhapsmissingtable = false;
-
-#pragma omp critical(database)
-            stmt.exec(query.str());
-        }
-
-        // === Get uuid as filename === // TODO put code in its own method
+        // Only one thread at a time is allowed to use the database and the uuid generator. In
+        // between, no other thread might insert the same configuration.
         std::string uuid;
-        spacer = "";
-        query.str(std::string());
-        query << "SELECT uuid FROM cache_one WHERE ";
-        for (auto p : conf) {
-            query << spacer << p.first << "='" << p.second.str() << "'";
-            spacer = " AND ";
-        }
-        query << ";";
 
 #pragma omp critical(database)
         {
-            sqlite::statement stmt(db, query.str());
-            stmt.prepare();
-            if (stmt.step()) {
-                uuid = stmt.get<std::string>(0);
-            }
-        }
+            if (flag_perhapsmissingtable) {
+                query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
+                         "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
+                         "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
+                for (auto p : conf) {
+                    query << ", " << p.first << " text";
+                }
+                query << ", UNIQUE (";
+                for (auto p : conf) {
+                    query << spacer << p.first;
+                    spacer = ", ";
+                }
+                query << "));";
 
-        if (!uuid.empty()) {
-            query.str(std::string());
-            query << "UPDATE cache_one SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
-                  << "';";
-#pragma omp critical(database)
-            stmt.exec(query.str()); // TODO check whether this slows down the program
+                stmt.exec(query.str());
 
-        } else {
-            boost::uuids::uuid u = generator();
-            boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+                flag_perhapsmissingtable = false;
+            }
 
+            // === Get uuid as filename === // TODO put code in its own method
+            spacer = "";
             query.str(std::string());
-            query << "INSERT INTO cache_one (uuid";
+            query << "SELECT uuid FROM cache_one WHERE ";
             for (auto p : conf) {
-                query << ", " << p.first;
+                query << spacer << p.first << "='" << p.second.str() << "'";
+                spacer = " AND ";
             }
-            query << ") values ( '" << uuid << "'";
-            for (auto p : conf) {
-                query << ", "
-                      << "'" << p.second.str() << "'";
+            query << ";";
+
+            {
+                sqlite::statement stmt(db, query.str());
+                stmt.prepare();
+                if (stmt.step()) {
+                    uuid = stmt.get<std::string>(0);
+                }
+            }
+
+            query.str(std::string());
+            if (!uuid.empty()) {
+                query << "UPDATE cache_one SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
+                      << "';";
+                stmt.exec(query.str()); // TODO check whether this slows down the program
+            } else {
+                boost::uuids::uuid u = generator();
+                boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+
+                query << "INSERT INTO cache_one (uuid";
+                for (auto p : conf) {
+                    query << ", " << p.first;
+                }
+                query << ") values ( '" << uuid << "'";
+                for (auto p : conf) {
+                    query << ", "
+                          << "'" << p.second.str() << "'";
+                }
+                query << ");";
+                stmt.exec(query.str());
             }
-            query << ");";
-#pragma omp critical(database)
-            stmt.exec(query.str());
         }
 
         // === Check existence of files === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index a3136de..8745081 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -719,70 +719,70 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             std::stringstream query;
             std::string spacer;
 
-            if (flag_perhapsmissingtable) {
-                query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
-                         "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
-                         "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
-                for (auto p : conf) {
-                    query << ", " << p.first << " text";
-                }
-                query << ", UNIQUE (";
-                for (auto p : conf) {
-                    query << spacer << p.first;
-                    spacer = ", ";
-                }
-                query << "));";
-
-#pragma omp critical(database)
-                stmt.exec(query.str());
-
-                flag_perhapsmissingtable = false;
-            }
-
-            // === Get uuid as filename ===
+            // Only one thread at a time is allowed to use the database and the uuid generator. In
+            // between, no other thread might insert the same configuration.
             std::string uuid;
-            query.str(std::string());
-            spacer = "";
-            query << "SELECT uuid FROM cache_two WHERE ";
-            for (auto p : conf) {
-                query << spacer << p.first << "='" << p.second.str() << "'";
-                spacer = " AND ";
-            }
-            query << ";";
 
 #pragma omp critical(database)
             {
-                sqlite::statement stmt(db, query.str());
-                stmt.prepare();
-                if (stmt.step()) {
-                    uuid = stmt.get<std::string>(0);
-                }
-            }
+                if (flag_perhapsmissingtable) {
+                    query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
+                             "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
+                             "accessed TIMESTAMP DEFAULT CURRENT_TIMESTAMP";
+                    for (auto p : conf) {
+                        query << ", " << p.first << " text";
+                    }
+                    query << ", UNIQUE (";
+                    for (auto p : conf) {
+                        query << spacer << p.first;
+                        spacer = ", ";
+                    }
+                    query << "));";
 
-            if (!uuid.empty()) {
-                query.str(std::string());
-                query << "UPDATE cache_two SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
-                      << "';";
-#pragma omp critical(database)
-                stmt.exec(query.str()); // TODO check whether this slows down the program
+                    stmt.exec(query.str());
 
-            } else {
-                boost::uuids::uuid u = generator();
-                boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+                    flag_perhapsmissingtable = false;
+                }
 
+                // === Get uuid as filename ===
+                spacer = "";
                 query.str(std::string());
-                query << "INSERT INTO cache_two (uuid";
+                query << "SELECT uuid FROM cache_two WHERE ";
                 for (auto p : conf) {
-                    query << ", " << p.first;
+                    query << spacer << p.first << "='" << p.second.str() << "'";
+                    spacer = " AND ";
                 }
-                query << ") values ( '" << uuid << "'";
-                for (auto p : conf) {
-                    query << ", "
-                          << "'" << p.second.str() << "'";
+                query << ";";
+
+                {
+                    sqlite::statement stmt(db, query.str());
+                    stmt.prepare();
+                    if (stmt.step()) {
+                        uuid = stmt.get<std::string>(0);
+                    }
+                }
+
+                query.str(std::string());
+                if (!uuid.empty()) {
+                    query << "UPDATE cache_two SET accessed = CURRENT_TIMESTAMP WHERE uuid = '" << uuid
+                          << "';";
+                    stmt.exec(query.str()); // TODO check whether this slows down the program
+                } else {
+                    boost::uuids::uuid u = generator();
+                    boost::algorithm::hex(u.begin(), u.end(), std::back_inserter(uuid));
+
+                    query << "INSERT INTO cache_two (uuid";
+                    for (auto p : conf) {
+                        query << ", " << p.first;
+                    }
+                    query << ") values ( '" << uuid << "'";
+                    for (auto p : conf) {
+                        query << ", "
+                              << "'" << p.second.str() << "'";
+                    }
+                    query << ");";
+                    stmt.exec(query.str());
                 }
-                query << ");";
-#pragma omp critical(database)
-                stmt.exec(query.str());
             }
 
             // === Check existence of files ===
-- 
2.43.0


From ecaefbf9be665427970e8e172dd1e042c2749db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 52/80] fix: data race while determining the necessary pair
 states

---
 pairinteraction/HamiltonianTwo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 8745081..22caa1e 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -357,8 +357,16 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
 #pragma omp parallel for
     for (int i = 0; i < nSteps_one_i; ++i) {
+        // The elements of a std::vector<bool> must not be written by several threads
+        std::vector<bool> necessary_step(this->basis->size(), false);
         energycutoff(*(hamiltonian_one1->get(i)), *(hamiltonian_one2->get(i)), deltaE,
-                     necessary_tmp);
+                     necessary_step);
+#pragma omp critical(necessary)
+        for (size_t idx = 0; idx < necessary_step.size(); ++idx) {
+            if (necessary_step[idx]) {
+                necessary_tmp[idx] = true;
+            }
+        }
     }
 
     // Apply restrictions due to symmetries
-- 
2.43.0


From 7e0cae22de4d27a043beb41b08c5a9ce8602647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 53/80] fix: recalculate results of the backend whose parameter
 file is incomplete

---
 pairinteraction/HamiltonianOne.cpp | 13 +++++++++----
 pairinteraction/HamiltonianTwo.cpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index bbe1608..101d090 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -579,10 +579,15 @@ void HamiltonianOne<Scalar>::build() {
         bool is_existing = false;
         if (fs::exists(path_mat)) {
             if (fs::exists(path_json)) {
-                Configuration params_loaded;
-                params_loaded.load_from_json(path_json.string());
-                if (conf == params_loaded) {
-                    is_existing = true;
+                try {
+                    Configuration params_loaded;
+                    params_loaded.load_from_json(path_json.string());
+                    if (conf == params_loaded) {
+                        is_existing = true;
+                    }
+                } catch (std::exception &e) { // incomplete file
+#pragma omp critical(textoutput)
+                    std::cerr << e.what() << std::endl;
                 }
             }
         }
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index 22caa1e..f486212 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -808,10 +808,15 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             bool is_existing = false;
             if (fs::exists(path_mat)) {
                 if (fs::exists(path_json)) {
-                    Configuration params_loaded;
-                    params_loaded.load_from_json(path_json.string());
-                    if (conf == params_loaded) {
-                        is_existing = true;
+                    try {
+                        Configuration params_loaded;
+                        params_loaded.load_from_json(path_json.string());
+                        if (conf == params_loaded) {
+                            is_existing = true;
+                        }
+                    } catch (std::exception &e) { // incomplete file
+#pragma omp critical(textoutput)
+                        std::cerr << e.what() << std::endl;
                     }
                 }
             }
-- 
2.43.0


From 96e723c35adbd8ccd17f2190144b8ce55de7038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 54/80] fix: report if a configuration or a list of states
 cannot be saved

---
 pairinteraction/Basisnames.cpp | 6 ++++++
 pairinteraction/ConfParser.cpp | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index 61fe493..32ffbcf 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -290,6 +290,9 @@ void BasisnamesOne::save(const std::string &path) {
                 << state.m << std::endl;
     }
     csvfile.close();
+    if (!csvfile) {
+        throw std::runtime_error("The basis could not be saved to " + path + ".");
+    }
 }
 
 BasisnamesTwo::BasisnamesTwo(const std::shared_ptr<const BasisnamesOne> &basis_one1) {
@@ -438,4 +441,7 @@ void BasisnamesTwo::save(const std::string &path) {
                 << state.j[1] << "\t" << state.m[1] << std::endl;
     }
     csvfile.close();
+    if (!csvfile) {
+        throw std::runtime_error("The basis could not be saved to " + path + ".");
+    }
 }
diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1adba45..b5ca289 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -20,6 +20,8 @@
 #include "ConfParser.hpp"
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
+#include <fstream>
+#include <stdexcept>
 #include <string>
 
 void Configuration::load_from_json(std::string const &filename) {
@@ -45,5 +47,10 @@ void Configuration::save_to_json(std::string const &filename) const {
         pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
-    write_json(filename, pt);
+    std::ofstream file(filename);
+    write_json(file, pt);
+    file.close();
+    if (!file) {
+        throw std::runtime_error("The configuration could not be saved to " + filename + ".");
+    }
 }
-- 
2.43.0


From 47786a0d8f4d454e24e4d5b6e39c8c0d2af7e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 55/80] fix: quadrupole part of the diamagnetism between states
 of equal angular momentum

---
 pairinteraction/HamiltonianOne.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 101d090..1cdc195 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -276,8 +276,9 @@ void HamiltonianOne<Scalar>::build() {
             if (diamagnetism && (exist_B_0 || exist_B_1) &&
                 selectionRulesMultipole(state_row, state_col, 0, 0)) {
                 size_diamagnetism_00++;
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 size_diamagnetism_20++;
             } else if (diamagnetism && (exist_B_0 && exist_B_1) &&
                        selectionRulesMultipole(state_row, state_col, 2, 1)) {
@@ -376,8 +377,9 @@ void HamiltonianOne<Scalar>::build() {
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_00.addEntries(state_row.idx, state_col.idx, val);
                 }
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 double val = matrix_elements.getDiamagnetism(state_row, state_col, 2);
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_20.addEntries(state_row.idx, state_col.idx, val);
-- 
2.43.0


From 8e0e5438a5efbd367c06bd96e7472ac7b12e385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 56/80] fix: do not mix degenerate states of uncoupled blocks
 when a Hamiltonian is diagonalized

---
 pairinteraction/Hamiltonianmatrix.cpp | 65 +++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 7f80f21..2cbf66e 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -24,7 +24,11 @@
 #include <Eigen/Eigenvalues>
 #include <fmt/format.h>
 
+#include <algorithm>
+#include <numeric>
 #include <stdexcept>
+#include <utility>
+#include <vector>
 
 template <typename Scalar>
 Hamiltonianmatrix<Scalar>::Hamiltonianmatrix() = default;
@@ -268,13 +272,66 @@ Hamiltonianmatrix<Scalar>::getBlock(const std::vector<ptrdiff_t> &indices) {
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::diagonalize() {
     if (this->num_basisvectors() > 1) { // NOLINT
+        // Determine the sets of basis vectors that are not coupled to each other. If they were
+        // diagonalized together, degenerate states of different sets could be mixed, e.g. states
+        // with different magnetic quantum numbers.
+        const size_t size = this->num_basisvectors();
+        std::vector<size_t> set(size);
+        std::iota(set.begin(), set.end(), 0);
+        auto find = [&set](size_t idx) {
+            while (set[idx] != idx) {
+                idx = set[idx] = set[set[idx]];
+            }
+            return idx;
+        };
+        for (int k_1 = 0; k_1 < entries_.outerSize(); ++k_1) {
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(entries_, k_1); triple;
+                 ++triple) {
+                if (triple.value() != Scalar(0)) {
+                    set[find(triple.row())] = find(triple.col());
+                }
+            }
+        }
+        std::vector<std::vector<int>> coupled(size);
+        for (size_t idx = 0; idx < size; ++idx) {
+            coupled[find(idx)].push_back(idx);
+        }
+
         // diagonalization
-        Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(
-            Eigen::MatrixX<Scalar>(this->entries()));
+        const Eigen::MatrixX<Scalar> hamiltonian(this->entries());
+        std::vector<std::pair<double, Eigen::VectorX<Scalar>>> solutions;
+        solutions.reserve(size);
+        for (const auto &indices : coupled) {
+            const auto size_block = static_cast<int>(indices.size());
+            if (size_block == 0) {
+                continue;
+            }
+            Eigen::MatrixX<Scalar> block(size_block, size_block);
+            for (int col = 0; col < size_block; ++col) {
+                for (int row = 0; row < size_block; ++row) {
+                    block(row, col) = hamiltonian(indices[row], indices[col]);
+                }
+            }
+            Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(block);
+            for (int col = 0; col < size_block; ++col) {
+                Eigen::VectorX<Scalar> evec = Eigen::VectorX<Scalar>::Zero(size);
+                for (int row = 0; row < size_block; ++row) {
+                    evec[indices[row]] = eigensolver.eigenvectors()(row, col);
+                }
+                solutions.emplace_back(eigensolver.eigenvalues()[col], evec);
+            }
+        }
+        std::stable_sort(solutions.begin(), solutions.end(),
+                         [](const auto &lhs, const auto &rhs) { return lhs.first < rhs.first; });
 
         // eigenvalues and eigenvectors
-        Eigen::VectorX<double> evals = eigensolver.eigenvalues();
-        Eigen::SparseMatrix<Scalar> evecs = eigensolver.eigenvectors().sparseView(1e-4, 0.5);
+        Eigen::VectorX<double> evals(size);
+        Eigen::MatrixX<Scalar> evecs_dense(size, size);
+        for (size_t idx = 0; idx < size; ++idx) {
+            evals[idx] = solutions[idx].first;
+            evecs_dense.col(idx) = solutions[idx].second;
+        }
+        Eigen::SparseMatrix<Scalar> evecs = evecs_dense.sparseView(1e-4, 0.5);
 
         this->entries().setZero();
         this->entries().reserve(evals.size());
-- 
2.43.0


From 90a6a4cc5dfd7faeda9d116830b343ae3a973e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 57/80] fix: report if the basis does not have the symmetries
 that should be used

---
 pairinteraction/HamiltonianTwo.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index f486212..0b8673d 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -24,6 +24,7 @@
 #include <fmt/format.h>
 
 #include <stdexcept>
+#include <unordered_set>
 #include <utility>
 
 template <typename Scalar>
@@ -347,6 +348,29 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
     }
     std::vector<Symmetry> symmetries(symmetries_set.begin(), symmetries_set.end());
 
+    // The symmetries can only be used if they transform the basis into itself
+    std::unordered_set<StateTwoOld> available;
+    for (const auto &state : *this->basis) {
+        available.insert(state);
+    }
+    for (const auto &state : *this->basis) {
+        StateTwoOld reflected = state;
+        reflected.m[0] *= -1;
+        reflected.m[1] *= -1;
+        StateTwoOld exchanged = state;
+        std::swap(exchanged.n[0], exchanged.n[1]);
+        std::swap(exchanged.l[0], exchanged.l[1]);
+        std::swap(exchanged.j[0], exchanged.j[1]);
+        std::swap(exchanged.m[0], exchanged.m[1]);
+        if ((sym_reflection.front() != NA && available.count(reflected) == 0) ||
+            ((sym_inversion.front() != NA || sym_permutation.front() != NA) &&
+             available.count(exchanged) == 0)) {
+            std::string msg("The basis does not have the symmetries that should be used.");
+            std::cout << fmt::format(">>ERR{:s}", msg) << std::endl;
+            throw std::runtime_error(msg);
+        }
+    }
+
     // === Build up the list of necessary pair states ===
     std::cout << "Two-atom Hamiltonian, build up the list of necessary pair states" << std::endl;
 
-- 
2.43.0


From 172af833c30c7e8d60d90abfd3112dc5e6ad7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:28 +0000
Subject: [PATCH 58/80] fix: write the cache files of the GUI's Wigner d
 matrices atomically

A session that was stopped while saving left a truncated file, on which every
later session failed when it needed an element for the same angle.
---
 pairinteraction_gui/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 409d142..61f7683 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -36,9 +36,12 @@ class Wignerd:
             if not self.cachupdatedict[k]:
                 continue
             path = os.path.join(self.cachedir, k)
-            with open(path, "wb") as f:
+            # a later session must never find an incomplete file, even if this one is stopped while saving
+            path_tmp = f"{path}.{os.getpid()}.tmp"
+            with open(path_tmp, "wb") as f:
                 pickle.dump(v, f, pickle.HIGHEST_PROTOCOL)
-                self.cachupdatedict[k] = False
+            os.replace(path_tmp, path)
+            self.cachupdatedict[k] = False
 
     def calc(self, j, m2, m1, beta):
         sgn = 1
-- 
2.43.0


From 0eadc7cf2b661086746f81dee9fa935d5b7fd23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 59/80] fix: let the GUI load energies that are all zero

tmp.size is the number of stored elements, thus a matrix that consists of
zeros (e.g. a single unperturbed state) was taken for an empty one and no
energies were returned for its states.
---
 pairinteraction_gui/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/loader.py b/pairinteraction_gui/loader.py
index f831fb7..2d92c72 100644
--- a/pairinteraction_gui/loader.py
+++ b/pairinteraction_gui/loader.py
@@ -91,7 +91,7 @@ class Eigensystem(BinaryLoader):
         if self._energies is None:
             with open(self._filename + ".mat", "rb") as f:
                 tmp = self.readMatrix(f)
-                if tmp.size:
+                if min(tmp.shape) > 0:  # tmp.size does not count the energies that are zero
                     self._energies = np.real(tmp.diagonal())
                 else:
                     self._energies = np.array([])
@@ -106,7 +106,7 @@ class Eigensystem(BinaryLoader):
                     f.seek(self._shift, 0)
                 else:
                     tmp = self.readMatrix(f)
-                    if tmp.size:
+                    if min(tmp.shape) > 0:  # tmp.size does not count the energies that are zero
                         self._energies = np.real(tmp.diagonal())
                     else:
                         self._energies = np.array([])
-- 
2.43.0


From 695479087691fef8ffbac939709a34e7e349c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 60/80] fix: let the GUI show the error messages of the backend

AllQueues had no signal, so that a message >>ERR of the backend ended the
thread that reads the messages with an AttributeError.
---
 pairinteraction_gui/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1a62e91..745ce55 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -31,6 +31,7 @@ class Worker(QThread):
     def __init__(self, all_queues, parent=None):
         super().__init__(parent)
         self.all_queues = all_queues
+        self.all_queues.criticalsignal = self.criticalsignal
         self.exiting = False
 
     def __del__(self):
@@ -59,6 +60,7 @@ class Worker(QThread):
 
 class AllQueues:
     def __init__(self):
+        self.criticalsignal = None  # set by the worker that reads the messages
         self.dataqueues = [Queue(), Queue(), Queue()]  # field1, field2, potential
         self.clear()
 
@@ -123,7 +125,8 @@ class AllQueues:
             self.dataqueues[self._type % 3].put([filestep, blocks, blocknumber, filename])
 
         elif line[:5] == ">>ERR":
-            self.criticalsignal.emit(line[5:].strip())
+            if self.criticalsignal is not None:
+                self.criticalsignal.emit(line[5:].strip())
 
         elif line[:5] == ">>END":
             self.finishedgracefully = True
-- 
2.43.0


From eec95744c3a8f5863030f98a67c565f750af2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:44 +0000
Subject: [PATCH 61/80] fix: reject a configuration with zero steps

The number of steps is used as the number of single atom Hamiltonians, whose
first and last element were accessed although there was none.
---
 pairinteraction/HamiltonianOne.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 1cdc195..021158a 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -92,6 +92,9 @@ void HamiltonianOne<Scalar>::configure(const Configuration &config) {
         nSteps = 1;
     } else {
         config["steps"] >> nSteps;
+        if (nSteps == 0) {
+            throw std::invalid_argument("The number of steps must be positive.");
+        }
     }
 }
 
-- 
2.43.0


From 84d4f8181434f58a57038c695ca6276b4cb656e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 62/80] fix: reject quantum numbers of a configuration that are
 out of range

The calculations with quantum numbers and ranges near the limits of the
integers overflowed, which is undefined behavior.
---
 pairinteraction/Basisnames.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index 32ffbcf..71339f8 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -18,8 +18,21 @@
  */
 
 #include "Basisnames.hpp"
+#include "Constants.hpp"
+#include <cmath>
 #include <stdexcept>
 
+namespace {
+// Quantum numbers and their ranges must be within the representable limits (this also rejects
+// numbers that are not finite), so that the calculations with them cannot overflow.
+template <typename... T>
+void check_limits(T... numbers) {
+    if (!((std::fabs(numbers) < ARB) && ...)) {
+        throw std::out_of_range("The quantum numbers are out of range.");
+    }
+}
+} // namespace
+
 BasisnamesOne::BasisnamesOne() = default;
 BasisnamesOne BasisnamesOne::fromStates(const std::vector<StateOneOld> &names) {
     BasisnamesOne basisnames;
@@ -117,6 +130,11 @@ BasisnamesOne BasisnamesOne::fromBoth(const Configuration &config) {
     }*/ // TODO
 }
 void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
+    check_limits(delta_n, delta_l, delta_j, delta_m);
+    for (int i = 0; i < 2; ++i) {
+        check_limits(startstate.n[i], startstate.l[i], startstate.j[i], startstate.m[i]);
+    }
+
     states_initial.push_back(startstate.first());  // TODO correct for idx
     states_initial.push_back(startstate.second()); // TODO correct for idx
 
@@ -187,6 +205,9 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
     dim_ = idx;
 }
 void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
+    check_limits(delta_n, delta_l, delta_j, delta_m);
+    check_limits(startstate.n, startstate.l, startstate.j, startstate.m);
+
     states_initial.push_back(startstate); // TODO correct for idx
 
     conf["species1"] << species;
-- 
2.43.0


From 0e64d157d7262b3bdbe031fe62de3aeba6eff141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 63/80] fix: do not read damaged sizes and indices of
 serialized objects

The sizes and indices of a sparse or dense matrix and the number of states were
used without checking them when a system was loaded. A damaged file led to
accesses out of bounds.
---
 pairinteraction/SystemBase.hpp          |  2 +-
 pairinteraction/serialization_eigen.hpp | 28 ++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.hpp b/pairinteraction/SystemBase.hpp
index 2bacadc..9262fe5 100644
--- a/pairinteraction/SystemBase.hpp
+++ b/pairinteraction/SystemBase.hpp
@@ -106,7 +106,7 @@ void load(Archive &ar,
           boost::multi_index::multi_index_container<Value, IndexSpecifierList, Allocator> &vector) {
     size_type size;
     ar(make_size_tag(size));
-    vector.reserve(static_cast<size_type>(size));
+    // The size might be damaged. Do not reserve memory before knowing that the elements exist.
     for (size_type i = 0; i < size; ++i) {
         Value v;
         ar(v);
diff --git a/pairinteraction/serialization_eigen.hpp b/pairinteraction/serialization_eigen.hpp
index 5805e50..d0a0d55 100644
--- a/pairinteraction/serialization_eigen.hpp
+++ b/pairinteraction/serialization_eigen.hpp
@@ -20,6 +20,9 @@
 #ifndef SERIALIZATION_EIGEN_H
 #define SERIALIZATION_EIGEN_H
 
+#include <algorithm>
+#include <limits>
+
 #include <cereal/archives/binary.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/cereal.hpp>
@@ -36,7 +39,11 @@ struct ArrayData {
     template <typename Archive>
     void CEREAL_SERIALIZE_FUNCTION_NAME(Archive &ar) {
         using namespace cereal;
-        ar(make_size_tag(static_cast<size_type>(size)));
+        auto stored_size = static_cast<size_type>(size);
+        ar(make_size_tag(stored_size));
+        if (stored_size != static_cast<size_type>(size)) {
+            throw Exception("The size of an array does not match the size of its matrix");
+        }
         if constexpr (cereal::traits::is_text_archive<Archive>::value) { // NOLINT
             for (S i = 0; i < size; ++i) {
                 ar(data[i]);
@@ -73,6 +80,10 @@ void CEREAL_SERIALIZE_FUNCTION_NAME(Archive &ar,
     if constexpr (Archive::is_loading::value) { // NOLINT
         StorageIndex const rows = (m.IsRowMajor) ? outerSize : innerSize;
         StorageIndex const cols = (m.IsRowMajor) ? innerSize : outerSize;
+        if (innerSize < 0 || outerSize < 0 || valuesSize < 0 ||
+            outerSize == std::numeric_limits<StorageIndex>::max()) {
+            throw Exception("The size of a sparse matrix is not valid");
+        }
         m.resize(rows, cols);
         m.resizeNonZeros(valuesSize);
     }
@@ -82,6 +93,16 @@ void CEREAL_SERIALIZE_FUNCTION_NAME(Archive &ar,
     ar(make_nvp("valuePtr", ArrayData{m.valuePtr(), valuesSize}));
 
     if constexpr (Archive::is_loading::value) { // NOLINT
+        // Check that the indices describe elements of the matrix
+        StorageIndex const *outer = m.outerIndexPtr();
+        StorageIndex const *inner = m.innerIndexPtr();
+        if (outer[0] != 0 || outer[outerSize] != valuesSize ||
+            !std::is_sorted(outer, outer + outerSize + 1) ||
+            !std::all_of(inner, inner + valuesSize,
+                         [&](StorageIndex i) { return i >= 0 && i < innerSize; })) {
+            m.resize(0, 0);
+            throw Exception("The indices of a sparse matrix are not valid");
+        }
         m.finalize();
     }
 }
@@ -101,6 +122,11 @@ void CEREAL_SERIALIZE_FUNCTION_NAME(
     ar(CEREAL_NVP(cols));
 
     if constexpr (Archive::is_loading::value) { // NOLINT
+        if (rows < 0 || cols < 0 || (Rows != Eigen::Dynamic && rows != Rows) ||
+            (Cols != Eigen::Dynamic && cols != Cols) ||
+            (cols != 0 && rows > std::numeric_limits<Eigen::Index>::max() / cols)) {
+            throw Exception("The size of a matrix is not valid");
+        }
         m.resize(rows, cols);
     }
 
-- 
2.43.0


From 9adbffe9ebd095090e5111fec83872f79fef364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 64/80] fix: calculate pairs without restricting their energies
 in the GUI

The energies of the pair state were only calculated if they restrict the basis.
With deltaEPair = -1, the calculation ended with a NotImplementedError.
---
 pairinteraction_gui/pipy_thread.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 10eb90a..7e72522 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -140,6 +140,8 @@ class PipyThread(QThread):
             info("No states found to diagonalize", kwargs)
             return
         if atom.nAtoms == 2:
+            # the results are relative to these energies, even if they do not restrict the basis
+            atom.config.getEnergiesPair(atom.atom1, atom.atom2)
             allQunumbers = [[*qns[:, 0], *qns[:, 1]] for qns in np.array(atom.allQunumbers)]
         else:
             allQunumbers = atom.allQunumbers
-- 
2.43.0


From 83b75d8a0daf9c8220b08df1aee596df1b2e9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 65/80] fix: do not mix up cached results of different initial
 states in the GUI

The energies of the initial states, to which the cached energies are relative,
were not part of the hash that identifies the results of one-atom calculations.
Thus, a calculation for another initial state with the same basis loaded wrong
energies.
---
 pairinteraction_gui/pipy/config.py | 1 +
 pairinteraction_gui/pipy_thread.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index d7b42de..a5e8541 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -235,6 +235,7 @@ class Config:
             "species": self.species(part),
             "momenta": self.momentaSingle(part),
         }
+        part = getattr(self, "iAtom", 1) if part is None else part
         output["_energies"] = getattr(self, f"_energiesSingle{part}", None)
         for Q in ["Energy", "N", "L", "J", "M"]:
             minQ, maxQ = self.restrictQnSingle(Q, part)
diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 7e72522..827d397 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -144,6 +144,8 @@ class PipyThread(QThread):
             atom.config.getEnergiesPair(atom.atom1, atom.atom2)
             allQunumbers = [[*qns[:, 0], *qns[:, 1]] for qns in np.array(atom.allQunumbers)]
         else:
+            # the results are relative to these energies, so they must be part of the hash
+            atom.config.getEnergiesSingle()
             allQunumbers = atom.allQunumbers
         info(f"basis size with restrictions: {len(allQunumbers)}", kwargs)
         _name = f"{'one' if atom.nAtoms == 1 else 'two'}_{atom.config.toHash()}"
-- 
2.43.0


From 54ea8349bd0d92a5db6b95fb77ab364eb4a82e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 66/80] fix: apply changed fields to both atoms of a pair in
 the GUI

The configurations of the atoms share their dictionary. Hence, after the fields
of the first atom had been updated, the update of the second one was skipped.
---
 pairinteraction_gui/pipy/atom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7b38c45..4c20691 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -560,6 +560,11 @@ class AtomTwo(Atom):
                     config.setSymmetry(sym, new[sym])
 
             if any(update.get(k, False) for k in ["atom1", "atom2"]):
+                # the atoms share their parameters, so the second one could not notice the change
+                for atom in self.atoms:
+                    atom.energies, atom.overlaps, atom.vectors = None, None, None
+                    atom.system.setEfield(atom.config.Efield())
+                    atom.system.setBfield(atom.config.Bfield())
                 # for now we have to build the system again, because internal SystemTwo makes a copy of
                 # the SystemOne's... and therefore by updatind the SystemOne's it does not update the SystemTwo
                 logger.warning(
-- 
2.43.0


From f9dc38d65840b71779dfeac895fd110647156fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 67/80] fix: save momenta of atoms with integer spin in the GUI

For singlet and triplet strontium, the momenta could be integers of numpy which
can not be saved as json, so that the calculation ended with a TypeError.
---
 pairinteraction_gui/pipy_thread.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 827d397..3847895 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -379,6 +379,8 @@ def params_to_settings(params):
         else:
             allowedMomenta = [None]
 
+        allowedMomenta = [None if M is None else float(M) for M in allowedMomenta]  # for json
+
         symmetries = {}
         for s in ["inv", "per", "ref"]:
             v = [eo for eo in ["O", "E"] if params.get(s + eo, False)]
-- 
2.43.0


From b9677f0d7fdea63a0005b317f3a3dda091649dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 68/80] fix: include the blocks of all momenta if the atoms
 share their basis in the GUI

If the atoms share their basis, the allowed momenta extend around the states of
both atoms. Blocks of momenta were missing if the states differed.
---
 pairinteraction_gui/pipy_thread.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 3847895..3df2b2c 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -369,6 +369,10 @@ def params_to_settings(params):
                         "WARNING: conserveM but not only plot same symmetry sector. "
                         "no deltaMSingle, deltaJSingle or deltaLSingle given, failed to determine allowed momenta. "
                     )
+                if config.get("samebasis", False):
+                    # both atoms have the momenta that are allowed for any of them
+                    allowed = allowed_m1 + allowed_m2
+                    allowed_m1 = allowed_m2 = list(np.arange(min(allowed), max(allowed) + 1))
                 allowedMomenta = list({m1 + m2 for m1 in allowed_m1 for m2 in allowed_m2})
             else:
                 if config.get("zerotheta", False):
-- 
2.43.0


From 604472bb5a2e54ea745a6bd667075d24761f20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 69/80] fix: do not build states of l = 0, j = 0 for atoms with
 spin one

---
 pairinteraction/SystemOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index aff3ac7..9ec0c58 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -229,7 +229,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 range_adapted_j = this->range_j;
             }
             for (auto j : range_adapted_j) {
-                if (std::fabs(j - l) > s || j < 0) {
+                if (std::fabs(j - l) > s || j + l < s) {
                     continue;
                 }
 
-- 
2.43.0


From 876cf53bdb5e91d365210944edcc783b51fab9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:30 +0000
Subject: [PATCH 70/80] fix: build reflection symmetric pairs from reflection
 symmetric atoms in the GUI

---
 pairinteraction_gui/pipy/atom.py   | 33 ++++++++++++++++++++++++++----
 pairinteraction_gui/pipy_thread.py |  3 +++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 4c20691..1383c3a 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -341,8 +341,31 @@ class AtomOne(Atom):
         new._system = self.copySystem()
         return new
 
+    def createReflectionSymmetricSystem(self):
+        """Returning a diagonalized pi.SystemOne, whose basis vectors are symmetric or antisymmetric under reflection."""
+        pi = pireal if self.config.isReal() else picomplex
+        system_symmetric = None
+        for parity in [pi.EVEN, pi.ODD]:
+            system = self._newSystem()
+            system.setConservedParityUnderReflection(parity)
+            try:
+                system.diagonalize(self.config.diagonalizeThreshold())
+            except RuntimeError as e:
+                if "The basis contains no states." not in str(e):
+                    raise e
+                continue  # there are no basis vectors of this parity
+            if system_symmetric is None:
+                system_symmetric = system
+            else:
+                system_symmetric.add(system)
+        return system_symmetric
+
     def _createSystem(self):
         """Creating the actual pi.SystemOne."""
+        self._system = self._newSystem()
+        super()._createSystem()
+
+    def _newSystem(self):
         config = self.config
         pi = pireal if config.isReal() else picomplex
         system = pi.SystemOne(config.species(), self.getCache())
@@ -363,9 +386,7 @@ class AtomOne(Atom):
         if config.Bfield() != [0, 0, 0]:
             system.setBfield(config.Bfield())
         system.enableDiamagnetism(config.diamagnetism())
-
-        self._system = system
-        super()._createSystem()
+        return system
 
     def updateFromParams(self, new):
         """Updating the system from given parameters.
@@ -477,7 +498,11 @@ class AtomTwo(Atom):
         pi = pireal if config.isReal() else picomplex
         for atom in self.atoms:
             atom.calcEnergies()
-        system = pi.SystemTwo(self.atom1.system, self.atom2.system, self.getCache())
+        system_ones = [atom.system for atom in self.atoms]
+        if config.symmetry("reflection") is not None:
+            # the reflection symmetric pair states have to be built from reflection symmetric basis vectors
+            system_ones = [atom.createReflectionSymmetricSystem() for atom in self.atoms]
+        system = pi.SystemTwo(system_ones[0], system_ones[-1], self.getCache())
 
         for q in ["N", "L", "J", "M"]:
             minq, maxq = config.restrictQnPair(q)
diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 3df2b2c..6946630 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -344,6 +344,9 @@ def params_to_settings(params):
         listoptions["steps"] = 1
     config["isReal"] = all(listoptions.get(k, 0) == 0 for k in ["minBy", "maxBy", "minEy", "maxEy"])
 
+    if config["nAtoms"] == 2 and (params.get("refE", False) or params.get("refO", False)):
+        config["isReal"] = False  # the reflection symmetric basis vectors of single atoms are complex
+
     if config["nAtoms"] == 2:
         # FIXME: make this symmetry conditions nicer
         # and more general for arbitrary s (does arbitrary schange anything?)
-- 
2.43.0


From 28c2256f061c90df6e1c0bae847d8430bc495501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 71/80] fix: skip symmetry blocks without basis vectors in the
 GUI

---
 pairinteraction_gui/pipy/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 1383c3a..7c08d28 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -152,8 +152,8 @@ class Atom:
         try:
             self._system.getNumStates()
         except RuntimeError as e:
-            if "The basis contains no states." in str(e):
-                logger.warning("WARNING: The basis contains no states.")
+            if "The basis contains no states." in str(e) or "The basis contains no vectors." in str(e):
+                logger.warning("WARNING: %s", e)
                 self._noStates = True
             else:
                 raise e
@@ -351,7 +351,7 @@ class AtomOne(Atom):
             try:
                 system.diagonalize(self.config.diagonalizeThreshold())
             except RuntimeError as e:
-                if "The basis contains no states." not in str(e):
+                if "The basis contains no" not in str(e):
                     raise e
                 continue  # there are no basis vectors of this parity
             if system_symmetric is None:
-- 
2.43.0


From 257c9214d71d10ce1ac4b79274b2a3579f1fdfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:48 +0000
Subject: [PATCH 72/80] fix: do not mix degenerate states that are not coupled
 when systems are diagonalized

---
 pairinteraction/SystemBase.cpp | 109 +++++++++++++++++++++++++++------
 1 file changed, 89 insertions(+), 20 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index b71c803..96e5c72 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -718,34 +718,103 @@ void SystemBase<Scalar, State>::diagonalize(double threshold) {
         return;
     }
 
-#if defined EIGEN_USE_LAPACKE || WITH_INTEL_MKL
-
-    // Diagonalize hamiltonian
-    char jobz = 'V';                          // eigenvalues and eigenvectors are computed
-    char uplo = 'U';                          // full matrix is stored, upper is used
-    int n = hamiltonian.cols();               // size of the matrix
-    Eigen::MatrixX<Scalar> mat = hamiltonian; // matrix
-    int lda = mat.outerStride();              // leading dimension
-    Eigen::VectorX<double> evals(n);          // eigenvalues
-    int info = LAPACKE_evd(LAPACK_COL_MAJOR, jobz, uplo, n, mat.data(), lda, evals.data());
-    if (info != 0) {
-        throw std::runtime_error("Diagonalization with LAPACKE failed.");
+    // Determine the sets of basis vectors that are not coupled to each other. If they were
+    // diagonalized together, degenerate states of different sets could be mixed, e.g. states with
+    // different magnetic quantum numbers.
+    const size_t size = hamiltonian.cols();
+    std::vector<size_t> set(size);
+    std::iota(set.begin(), set.end(), 0);
+    auto find = [&set](size_t idx) {
+        while (set[idx] != idx) {
+            idx = set[idx] = set[set[idx]];
+        }
+        return idx;
+    };
+    for (int k = 0; k < hamiltonian.outerSize(); ++k) {
+        for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(hamiltonian, k); triple;
+             ++triple) {
+            if (triple.value() != Scalar(0)) {
+                set[find(triple.row())] = find(triple.col());
+            }
+        }
+    }
+    std::vector<std::vector<size_t>> coupled(size);
+    std::vector<size_t> position(size);
+    for (size_t idx = 0; idx < size; ++idx) {
+        position[idx] = coupled[find(idx)].size();
+        coupled[find(idx)].push_back(idx);
     }
 
-    // Get eigenvectors
-    Eigen::SparseMatrix<Scalar> evecs = mat.sparseView();
+    // Diagonalize the hamiltonian of each set
+    std::vector<double> evals_unsorted;
+    evals_unsorted.reserve(size);
+    std::vector<Eigen::Triplet<Scalar>> evecs_triplets;
+    for (const auto &indices : coupled) {
+        if (indices.empty()) {
+            continue;
+        }
 
-#else // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
+        int n = indices.size();                                          // size of the matrix
+        Eigen::MatrixX<Scalar> mat = Eigen::MatrixX<Scalar>::Zero(n, n); // matrix
+        for (int col = 0; col < n; ++col) {
+            for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(hamiltonian,
+                                                                            indices[col]);
+                 triple; ++triple) {
+                if (triple.value() != Scalar(0)) {
+                    mat(position[triple.row()], col) = triple.value();
+                }
+            }
+        }
 
-    // Diagonalize hamiltonian
-    Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(hamiltonian);
+#if defined EIGEN_USE_LAPACKE || WITH_INTEL_MKL
 
-    // Get eigenvalues and eigenvectors
-    Eigen::VectorX<double> evals = eigensolver.eigenvalues();
-    Eigen::SparseMatrix<Scalar> evecs = eigensolver.eigenvectors().sparseView();
+        char jobz = 'V';                       // eigenvalues and eigenvectors are computed
+        char uplo = 'U';                       // full matrix is stored, upper is used
+        int lda = mat.outerStride();           // leading dimension
+        Eigen::VectorX<double> block_evals(n); // eigenvalues
+        int info =
+            LAPACKE_evd(LAPACK_COL_MAJOR, jobz, uplo, n, mat.data(), lda, block_evals.data());
+        if (info != 0) {
+            throw std::runtime_error("Diagonalization with LAPACKE failed.");
+        }
+        const Eigen::MatrixX<Scalar> &block_evecs = mat;
+
+#else // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
+
+        Eigen::SelfAdjointEigenSolver<Eigen::MatrixX<Scalar>> eigensolver(mat);
+        const Eigen::VectorX<double> &block_evals = eigensolver.eigenvalues();
+        const Eigen::MatrixX<Scalar> &block_evecs = eigensolver.eigenvectors();
 
 #endif // EIGEN_USE_LAPACKE || WITH_INTEL_MKL
 
+        for (int col = 0; col < n; ++col) {
+            for (int row = 0; row < n; ++row) {
+                if (block_evecs(row, col) != Scalar(0)) {
+                    evecs_triplets.emplace_back(indices[row], evals_unsorted.size(),
+                                                block_evecs(row, col));
+                }
+            }
+            evals_unsorted.push_back(block_evals[col]);
+        }
+    }
+
+    // Sort the eigenvalues and eigenvectors
+    std::vector<size_t> order(size), rank(size);
+    std::iota(order.begin(), order.end(), 0);
+    std::stable_sort(order.begin(), order.end(), [&evals_unsorted](size_t lhs, size_t rhs) {
+        return evals_unsorted[lhs] < evals_unsorted[rhs];
+    });
+    Eigen::VectorX<double> evals(size);
+    for (size_t idx = 0; idx < size; ++idx) {
+        evals[idx] = evals_unsorted[order[idx]];
+        rank[order[idx]] = idx;
+    }
+    for (auto &triplet : evecs_triplets) {
+        triplet = Eigen::Triplet<Scalar>(triplet.row(), rank[triplet.col()], triplet.value());
+    }
+    Eigen::SparseMatrix<Scalar> evecs(size, size);
+    evecs.setFromTriplets(evecs_triplets.begin(), evecs_triplets.end());
+
     // Build the new hamiltonian
     hamiltonian.setZero();
     hamiltonian.reserve(evals.size());
-- 
2.43.0


From a0fa45ab3372dd540a1d9fa9bed23702d8a24798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:48 +0000
Subject: [PATCH 73/80] fix: allow both signs of momenta for reflection
 symmetric pairs in the GUI

---
 pairinteraction_gui/pipy/atom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7c08d28..c243e74 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -515,7 +515,10 @@ class AtomTwo(Atom):
         if config.minimalNorm() is not None:
             system.setMinimalNorm(config.minimalNorm())
         if config.conserveMomentaPair():
-            system.setConservedMomentaUnderRotation(config.momentaPair())
+            momenta = config.momentaPair()
+            if config.symmetry("reflection") is not None:
+                momenta = sorted({sign * m for m in momenta for sign in (1, -1)})  # a reflection changes the sign
+            system.setConservedMomentaUnderRotation(momenta)
         if config.angle() is not None:
             system.setAngle(config.angle())
         if not np.isinf(config.distance()) and config.distance() is not None:
-- 
2.43.0


From 02c0c9c53aafda17b9463cb8ac42ca9e4f681946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:21 +0000
Subject: [PATCH 74/80] fix: use the energies of the second species for the
 second atom in the GUI

---
 pairinteraction_gui/pipy/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index a5e8541..04108b2 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -224,7 +224,7 @@ class Config:
                 from pairinteraction import pireal
 
                 pi = pireal
-            states = [pi.StateOne(self.species(), *qn) for qn in self.qnumbersSingle(part)]
+            states = [pi.StateOne(self.species(part), *qn) for qn in self.qnumbersSingle(part)]
             energies = [s.getEnergy() for s in states]
             setattr(self, f"_energiesSingle{part}", energies)
         return getattr(self, f"_energiesSingle{part}")
-- 
2.43.0


From 80ee9e488bf729301e805ab82588c2dea98a0fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:06 +0000
Subject: [PATCH 75/80] fix: do not forget restrictions that leave no basis
 vectors

---
 pairinteraction/SystemBase.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 96e5c72..b563725 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -564,19 +564,31 @@ void SystemBase<Scalar, State>::buildBasis() {
         // Initialize the basis
         this->initializeBasis();
 
-        // Forget basis restrictions as they were applied now
-        this->forgetRestrictions();
+        // Forget basis restrictions as they were applied now. If they left nothing, they are still
+        // needed because the basis is initialized again when it is requested the next time.
+        if (basisvectors.rows() != 0 && basisvectors.cols() != 0) {
+            this->forgetRestrictions();
+        }
 
     } else {
         this->updateEverything();
+
+        // If the restrictions left nothing, ensure that initializing the basis again does not bring
+        // back what has been removed by them
+        if (basisvectors.rows() == 0 || basisvectors.cols() == 0) {
+            energy_min = std::numeric_limits<double>::max();
+            energy_max = std::numeric_limits<double>::lowest();
+        }
     }
 
     // Check whether the basis is empty
-    if (basisvectors.rows() == 0) {
-        throw std::runtime_error("The basis contains no states.");
-    }
-    if (basisvectors.cols() == 0) {
-        throw std::runtime_error("The basis contains no vectors.");
+    if (basisvectors.rows() == 0 || basisvectors.cols() == 0) {
+        const bool has_states = basisvectors.rows() != 0;
+        states.clear();
+        basisvectors = Eigen::SparseMatrix<Scalar>();
+        hamiltonian = Eigen::SparseMatrix<Scalar>();
+        throw std::runtime_error(has_states ? "The basis contains no vectors."
+                                            : "The basis contains no states.");
     }
 }
 
-- 
2.43.0


From f39ccf44389e9881c4fddff4327385d876942abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:06 +0000
Subject: [PATCH 76/80] fix: skip steps at which no pair states are left in the
 GUI

---
 pairinteraction_gui/pipy/atom.py   |  1 +
 pairinteraction_gui/pipy_thread.py | 16 ++++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index c243e74..d6a98bb 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -149,6 +149,7 @@ class Atom:
         """
         if self._system is None:
             raise NotImplementedError
+        self._noStates = False
         try:
             self._system.getNumStates()
         except RuntimeError as e:
diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 6946630..aea91c9 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -161,10 +161,10 @@ class PipyThread(QThread):
         param_list = self.get_param_list(settings)
         info("precalculate matrix elements", kwargs)
         # make sure also interactions are precalculated (distance must be not None) and all fields, that might occur
-        atom.updateFromParams(param_list[0])
-        atom.system.buildInteraction()
-        atom.updateFromParams(param_list[-1])
-        atom.system.buildInteraction()
+        for params in (param_list[0], param_list[-1]):
+            atom.updateFromParams(params)
+            if not atom.noStates:
+                atom.system.buildInteraction()
 
         # Decide how to pass the atom to the subprocesses
         if "delete" in self.pass_atom:
@@ -198,7 +198,8 @@ class PipyThread(QThread):
                 if self.terminating:
                     return
                 result = P_ONE_RUN(i)
-                self.print_completed(settings, result, kwargs)
+                if result is not None:
+                    self.print_completed(settings, result, kwargs)
         elif isinstance(pool, multiprocessing.pool.Pool):
             if (
                 pool._ctx.get_start_method() != "fork"
@@ -215,7 +216,8 @@ class PipyThread(QThread):
             for result in results:
                 if self.terminating:
                     return
-                self.print_completed(settings, result, kwargs)
+                if result is not None:
+                    self.print_completed(settings, result, kwargs)
             # don't terminate pool / use with pool, such that we can reuse it
 
         # Clean up
@@ -237,6 +239,8 @@ class PipyThread(QThread):
         config = atom.config
 
         atom.updateFromParams(param_list[ip])
+        if atom.noStates:
+            return None  # the fields moved all pair states out of the energy range
         dimension = len(atom.basisQunumbers)
 
         real_complex = "real" if config.isReal() else "complex"
-- 
2.43.0


From 83c24d5f452f888eccc23319c8e4fc194de97700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:20 +0000
Subject: [PATCH 77/80] fix: refuse NumPy arrays without dimensions as matrix
 arguments

They have no shape that could be read, so that the access crashed.
---
 pairinteraction/NumpyUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 1e3ad0d..3c9245e 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -449,7 +449,7 @@ as(numpy::array ndarray) {
     Scalar *data;
     std::tie(nd, dims, data) = internal::as_dense_impl<T>(ndarray);
 
-    if (nd > 2)
+    if (nd < 1 || nd > 2)
         throw std::range_error("Dimension mismatch.");
 
     return Eigen::Map<T const>(data, dims[0], (nd == 1 ? 1 : dims[1]));
@@ -481,7 +481,7 @@ as(numpy::array ndarray) {
     Scalar *data;
     std::tie(nd, dims, data) = internal::as_dense_impl<T>(ndarray);
 
-    if (nd > 1)
+    if (nd != 1)
         throw std::range_error("Dimension mismatch.");
 
     return Eigen::Map<T const>(data, dims[0]);
-- 
2.43.0


From 9e312f83b184a61e3b946dd4104e0e0ca9a60355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:20 +0000
Subject: [PATCH 78/80] fix: refuse NumPy arrays of foreign byte order as
 matrix arguments

Their type is the same, but their bytes were taken for numbers as they are.
---
 pairinteraction/NumpyUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 3c9245e..84934d4 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -415,7 +415,7 @@ std::tuple<int, npy_intp *, Scalar *> as_dense_impl(numpy::array ndarray_) {
     npy_intp *dims = PyArray_SHAPE(ndarray);
     Scalar *data = reinterpret_cast<Scalar *>(PyArray_DATA(ndarray));
 
-    if (PyArray_TYPE(ndarray) != internal::py_type<Scalar>::type)
+    if (PyArray_TYPE(ndarray) != internal::py_type<Scalar>::type || PyArray_ISBYTESWAPPED(ndarray))
         throw std::invalid_argument("Type mismatch.");
 
     return std::make_tuple(nd, dims, data);
-- 
2.43.0


From 3378c47e63d93d35550bd41c35c800feeeeea65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:20 +0000
Subject: [PATCH 79/80] fix: release the arrays of sparse matrices that are
 handed to Python

The csc_matrix takes references of its own, so that every conversion kept
its three arrays alive forever.
---
 pairinteraction/NumpyUtils.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index 84934d4..e75f326 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -330,27 +330,29 @@ PyObject *sparse_impl(T &&sm) {
         // we cannot call makeCompressed here because sm might be const
         throw std::runtime_error("Sparse matrix is not compressed!");
 
-    numpy::array indptr =
-        numpy::convert<v>(sm.outerIndexPtr(), sm.outerIndexPtr() + sm.outerSize() + 1);
+    // The csc_matrix holds references of its own
+    using object_ptr = std::unique_ptr<PyObject, decltype(&Py_DecRef)>;
 
-    numpy::array indices =
-        numpy::convert<v>(sm.innerIndexPtr(), sm.innerIndexPtr() + sm.nonZeros());
+    object_ptr indptr{
+        numpy::convert<v>(sm.outerIndexPtr(), sm.outerIndexPtr() + sm.outerSize() + 1), &Py_DecRef};
 
-    numpy::array data = numpy::convert<v>(sm.valuePtr(), sm.valuePtr() + sm.nonZeros());
+    object_ptr indices{numpy::convert<v>(sm.innerIndexPtr(), sm.innerIndexPtr() + sm.nonZeros()),
+                       &Py_DecRef};
+
+    object_ptr data{numpy::convert<v>(sm.valuePtr(), sm.valuePtr() + sm.nonZeros()), &Py_DecRef};
 
     int num_rows = sm.rows();
     int num_cols = sm.cols();
 
     char object[] = "csc_matrix";
     char arglist[] = "(OOO)(ii)";
-    std::unique_ptr<PyObject, decltype(&Py_DecRef)> scipy{PyImport_ImportModule("scipy.sparse"),
-                                                          &Py_DecRef};
+    object_ptr scipy{PyImport_ImportModule("scipy.sparse"), &Py_DecRef};
     if (scipy == nullptr) {
         PyErr_Print();
         return nullptr;
     }
-    PyObject *mat = PyObject_CallMethod(scipy.get(), object, arglist, data, indices, indptr,
-                                        num_rows, num_cols);
+    PyObject *mat = PyObject_CallMethod(scipy.get(), object, arglist, data.get(), indices.get(),
+                                        indptr.get(), num_rows, num_cols);
     if (mat == nullptr) {
         PyErr_Print();
         return nullptr;
-- 
2.43.0


From ed55df91834ce3c188b7f98fd0a328989d35d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:20 +0000
Subject: [PATCH 80/80] fix: refuse NumPy shapes that need more elements than
 there are

The comparison was the wrong way round: Shapes larger than the data were
accepted, which exposes memory behind the data or uninitialized memory.
---
 pairinteraction/NumpyUtils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/NumpyUtils.hpp b/pairinteraction/NumpyUtils.hpp
index e75f326..635bcfc 100644
--- a/pairinteraction/NumpyUtils.hpp
+++ b/pairinteraction/NumpyUtils.hpp
@@ -111,8 +111,8 @@ void check_array_sanity(int len, int nd, std::initializer_list<T> dims) {
     if (nd != static_cast<int>(dims.size()))
         throw std::out_of_range("Dimension mismatch!");
 
-    if (len > std::accumulate(dims.begin(), dims.end(), int{1}, [](int a, int b) { return a * b; }))
-        throw std::out_of_range("Requested dimension is larger than data!");
+    if (len != std::accumulate(dims.begin(), dims.end(), int{1}, [](int a, int b) { return a * b; }))
+        throw std::out_of_range("Requested dimensions do not match the data!");
 }
 
 /** \brief Create a Numpy view of an iterator (implementation)
-- 
2.43.0

