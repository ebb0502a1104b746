From a58d598c94eff3a2e3c33858c6d3e0f0c2bd5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 01/52] fix: assigning to a Point adopts the size of the source
 instead of only growing

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..9072eb3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From cb7b1505794f0f9d7cdb1cf57fd7b75a778d9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 02/52] fix: max of a point with no positive component

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 9072eb3..935d9da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From b6942b35698ded4cb2f3c1a98f238d8a7079df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 03/52] fix: inserting from an empty dataset is rejected as out
 of bounds

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..2773c87 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1435,7 +1435,7 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::insertPoint(const Data< T >& samples, int _index, bool keepIndex){
-        if(_index > samples.size() - 1){
+        if(_index < 0 || size_t(_index) >= samples.size()){
             std::cerr << "Index out of bounds. (insertPoint)" << std::endl;
             return false;
         }
-- 
2.43.0


From 43a2356a4df15fbc61c2b7a390ca6988500199b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 04/52] fix: the first inserted point must match an already
 declared dimension

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 2773c87..390dbf7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1448,7 +1448,7 @@ namespace mltk{
     template<typename T>
     bool mltk::Data< T >::insertPoint(std::shared_ptr<Point< T > > p, bool keepIndex){
         //Dimension verification
-        if(size() > 0 && p && p->size() != this->dim()){
+        if((size() > 0 || m_dim > 0) && p && p->size() != this->dim()){
             std::cerr << "Point with dimension different from the data. (insertPoint)" << std::endl;
             std::cerr << "Point dim = " << p->size() << " dim = " << m_dim << std::endl;
             return false;
-- 
2.43.0


From 429a3252970546220782edc537784e1f87b578fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 05/52] fix: updatePointValue to a new class used a stale
 iterator and counted the point twice

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 390dbf7..ad79d41 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1987,14 +1987,14 @@ namespace mltk{
 
         if(isClassification()){
             int _c = int(value);
-            auto class_pos = std::find(m_classes.begin(), m_classes.end(), _c);
-            if(class_pos == m_classes.end()){
+            size_t class_pos = std::find(m_classes.begin(), m_classes.end(), _c) - m_classes.begin();
+            if(class_pos == m_classes.size()){
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
-                class_distribution.push_back(1);
+                class_distribution.push_back(0);
             }
             auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
-            class_distribution[class_pos - m_classes.begin()]++;
+            class_distribution[class_pos]++;
             class_distribution[oldclass_pos]--;
             if(class_distribution[oldclass_pos] == 0){
                 class_distribution.erase(class_distribution.begin() + oldclass_pos);
-- 
2.43.0


From 5a380d55b7daf091be4d6981e74e36f5b1a22931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 06/52] fix: clear also forgets the class distribution

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ad79d41..ddf13c4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1730,6 +1730,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From ade4f0c830f51ecb2ccdf75d9151f83cad04980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 07/52] fix: the dimension of a dataset is that of its first
 inserted point (supersedes 43a2356)

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ddf13c4..41f6a35 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1448,7 +1448,7 @@ namespace mltk{
     template<typename T>
     bool mltk::Data< T >::insertPoint(std::shared_ptr<Point< T > > p, bool keepIndex){
         //Dimension verification
-        if((size() > 0 || m_dim > 0) && p && p->size() != this->dim()){
+        if(size() > 0 && p && p->size() != this->dim()){
             std::cerr << "Point with dimension different from the data. (insertPoint)" << std::endl;
             std::cerr << "Point dim = " << p->size() << " dim = " << m_dim << std::endl;
             return false;
@@ -1463,7 +1463,7 @@ namespace mltk{
         m_points.insert(m_points.end(), p);
         m_size++;
         if(is_empty) is_empty = false;
-        if(m_dim == 0) m_dim = p->size();
+        if(m_size == 1) m_dim = p->size();
 
         if(this->isClassification()){
             auto class_pos = std::find(this->m_classes.begin(), this->m_classes.end(), p->Y());
-- 
2.43.0


From 1155a258a822bb8b7ef1869b5b470fee7eba898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 08/52] fix: removePoint of an absent id is rejected, and the
 index follows the removed position

---
 .../include/ufjfmltk/core/Data.hpp            | 31 ++++++++-----------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 41f6a35..16a5b11 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1184,30 +1184,25 @@ namespace mltk{
         int i;
 
         if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
-        //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
-        int y;
+        //Find the point by its id
+        for(i = 0; i < m_size; i++){
+            if(m_points[i]->Id() == pid) break;
+        }
+        if(i >= m_size) return false;
+
+        int y = m_points[i]->Y();
+        m_points.erase(m_points.begin() + i);
         if(!index.empty()){
             index.resize(m_size);
 
-            for(i = 0; i < m_size; ++i){
-                if(i >= pid){
-                    index[i-1] = index[i] - 1;
-                }
-            }
-        }
-
-        //Find the point by its id and erase it
-        for(i = 0; i < m_size; i++){
-            if(m_points[i]->Id() == pid){
-                y = m_points[i]->Y();
-                m_points.erase(m_points.begin() + i);
-                break;
+            for(size_t j = i + 1; j < m_size; ++j){
+                index[j-1] = index[j] - 1;
             }
+            index.pop_back();
         }
         m_size--;
-        auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+        size_t pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From f65df249d5b20009c052c6a7f75de31610ecc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:42 +0000
Subject: [PATCH 09/52] fix: removePoints keeps the index in step with the
 removed position and never drops the last point

---
 .../include/ufjfmltk/core/Data.hpp             | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 16a5b11..b79079c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1259,28 +1259,28 @@ namespace mltk{
             for(i = 0; i < idsize; i++){
                 if(po->Id() == ids[i]){
                     save = false;
-                    notFound[i] = false;
                     break;
                 }
             }
 
             if(save) p++;
             else{
+                //Size verification.
+                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
+                notFound[i] = false;
+                size_t pos = p - m_points.begin();
                 p = m_points.erase(p);
                 int c = po->Y();
                 if(!index.empty()){
                     index.resize(m_size);
 
-                    for(j = 0; j < m_size; ++j){
-                        if(j >= ids[i]){
-                            index[j-1] = index[j] - 1;
-                        }
+                    for(j = pos + 1; j < m_size; ++j){
+                        index[j-1] = index[j] - 1;
                     }
+                    index.pop_back();
                 }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
-                auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
+                size_t class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
+                if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
             }
         }
-- 
2.43.0


From 08ab83b81c3238c804a53ffcd4d68a87b471067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:42 +0000
Subject: [PATCH 10/52] fix: join recounts the classes of a loaded dataset, and
 joining into an empty one sets its dimension

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index b79079c..040f15c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1631,7 +1631,12 @@ namespace mltk{
         class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
 
         class_distribution.assign(m_classes.size(), 0);
+        cdist_computed = false;
         computeClassesDistribution();
+        if(antsize == 0 && size1 > 0){
+            m_dim = dim1;
+            is_empty = false;
+        }
         if(fnames.empty()){
             fnames = data.getFeaturesNames();
         }
-- 
2.43.0


From 6081e6ccce552f7a82873525a3f0aaa66b727326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:42 +0000
Subject: [PATCH 11/52] fix: classesCopy replaces the previous points

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 040f15c..86394c2 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1518,6 +1518,7 @@ namespace mltk{
         for(auto c: classes){
             _classes.insert(c);
         }
+        this->m_points.clear();
         for(size_t i = 0; i < _data.size(); i++){
             if(_classes.find(_data[i]->Y()) != _classes.end()){
                 this->m_points.push_back(std::make_shared<Point< T > >());
-- 
2.43.0


From b84095a92fdd95a48c5a16c18203043ea5323cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 12/52] fix: classesCopy describes the copied points, not the
 source dataset (index, names, distribution)

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 86394c2..5e34d81 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1536,11 +1536,19 @@ namespace mltk{
         this->m_classes = classes;
         this->m_dim = _data.dim();
         this->type = _data.getType();
-        this->index = _data.getIndex();
-        this->is_empty = _data.isEmpty();
+        this->resetIndex();
+        this->is_empty = (_size == 0);
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
+        auto data_classes = _data.classes();
+        auto data_names = _data.classesNames();
+        this->class_names.clear();
+        for(auto c: classes){
+            size_t pos = std::find(data_classes.begin(), data_classes.end(), c) - data_classes.begin();
+            this->class_names.push_back((pos < data_names.size()) ? data_names[pos] : std::to_string(c));
+        }
         this->cdist_computed = false;
+        this->computeClassesDistribution();
     }
 
     template<typename T>
-- 
2.43.0


From 243ddeba4babd5280096bed6bc16023ed725bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 13/52] fix: copyZero leaves an empty dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5e34d81..25898db 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1590,12 +1590,10 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::copyZero(const mltk::Data< T >& other){
+        clear();
         fnames = other.fnames;
         m_dim = other.m_dim;
-        m_size = 0;
-        is_empty = other.is_empty;
         normalized = other.normalized;
-        cdist_computed = false;
     }
 
     template<typename T>
-- 
2.43.0


From 212d67a5df4b29b05aae65addc47178bce490ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:03 +0000
Subject: [PATCH 14/52] fix: joining an empty dataset leaves the target
 unchanged instead of ending the program

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 25898db..91e8529 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1602,6 +1602,7 @@ namespace mltk{
         std::vector<int> index1 = data.getIndex(), antindex = index;
         auto points1 = data.points();
 
+        if(size1 == 0) return;
         if(m_dim > dim1){
             std::cerr << "Error: sample1 dimension must be less or equal to sample2\n";
             exit(1);
-- 
2.43.0


From ee8ae5026fa22ebebd4498263398f0765a98f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 15/52] fix: Lorentzian distance sums log(1+|difference|)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 626c4a4..83e1c1b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -75,7 +75,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Lorentzian";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::log(1 - mltk::abs(p1 - p2)).sum();
+                return mltk::log(1 + mltk::abs(p1 - p2)).sum();
             }
         };
 
-- 
2.43.0


From c6627ba79d6ce8f392ac9e21b492a33a19754e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 16/52] fix: NonIntersection distance was always 0 (integer
 division)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 83e1c1b..e442e30 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -107,7 +107,7 @@ namespace mltk::metrics::dist{
         class  NonIntersection : public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1 / 2) * mltk::abs(p1 - p2).sum();
+                return mltk::abs(p1 - p2).sum() / 2;
             }
         };
 
-- 
2.43.0


From 9b7f91e29bf6fb0947cb221f2ddd273d9bb24175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 17/52] fix: Bhattacharyya distance is the negative logarithm
 of the coefficient

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index e442e30..012b9c7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -172,7 +172,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Bhattacharyya";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return -std::sqrt(mltk::pow(p1 * p2, 0.5).sum());
+                return -std::log(mltk::pow(p1 * p2, 0.5).sum());
             }
         };
 
-- 
2.43.0


From 750c1415549efb196592d7e551e95cc2d8ef960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 18/52] fix: Clark distance lacks the square root

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 012b9c7..7723f3a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -234,7 +234,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Clark";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum();
+                return std::sqrt(mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum());
             }
         };
 
-- 
2.43.0


From a63359660c5913162d637de0c67ab37956bde3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 19/52] fix: Average distance was 0 for more than one component
 (integer division)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 7723f3a..17ae532 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -318,7 +318,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Average";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt((1/p1.size())*(mltk::pow(p1 - p2, 2)).sum());
+                return std::sqrt((mltk::pow(p1 - p2, 2)).sum()/p1.size());
             }
         };
 
-- 
2.43.0


From f0b5b4d77fc1386c81529d60c98e9c9e8cddd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 20/52] fix: Jensen-Shannon divergence dropped its first half
 (integer division)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 17ae532..e43fcee 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -400,7 +400,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenShannon";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * (p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum();
+                return ((p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum()) / 2;
             }
         };
 
-- 
2.43.0


From 001f350ddea0c7769bc70aee93b22410544d2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 21/52] fix: Jensen difference was always 0 (integer division)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index e43fcee..00d7516 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -412,7 +412,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenDifference";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
+                return 0.5 * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
             }
         };
 
-- 
2.43.0


From 26cc99b7ce81a62b64979bf8e10d90b3c2d6cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 22/52] fix: MinSymmetric takes the smaller of the two sums

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 00d7516..3693514 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -438,7 +438,7 @@ namespace mltk::metrics::dist{
         class  MinSymmetric: public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::max((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
+                return std::min((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
             }
         };
 
-- 
2.43.0


From 21b109f5cd204de9af076bc2fcafc26f122b3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 23/52] fix: Kumar-Johnson divergence uses the exponent 3/2
 (integer division)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 3693514..ab65da9 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -464,7 +464,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "KumarJohnson";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 3/2))).sum();
+                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 1.5))).sum();
             }
         };
 
-- 
2.43.0


From af5e8c71e2e44ac8f1e050dfb56c984d4f9b5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:44 +0000
Subject: [PATCH 24/52] fix: Hassanat distance shifts both terms by |min|, so
 distinct negative components are not at distance 0

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index ab65da9..a5b1df4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -495,7 +495,7 @@ namespace mltk::metrics::dist{
                         sum += 1 - (1+_min)/(1+std::max(p1[i], p2[i]));
                     }else{
                         auto _max = std::max(p1[i], p2[i]);
-                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_max));
+                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_min));
                     }
                 }
                 return sum;
-- 
2.43.0


From 0802dac93b745114f631618c6b2408227e0147be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 25/52] fix: the H matrix of a larger dataset kept rows of the
 previous, shorter size

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..e58fc20 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size, 0.0));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From 3fc8598cdce288c4223a6f442f3e416fe50f1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 26/52] fix: the H matrix without a dimension lacked the labels
 above the diagonal

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index e58fc20..9992cf2 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -206,8 +206,9 @@ namespace mltk{
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
             for (j = i; j < size; ++j) {
-                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim());
-                HwithoutDim[j][i] = HwithoutDim[i][j]*samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim()) *
+                        samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[j][i] = HwithoutDim[i][j];
             }
         }
     // clog << "\nH matrix without dim generated.\n";
-- 
2.43.0


From 4df9c74fd3a8bb15b7f1b5d2bcd2e272fd7c2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 27/52] fix: the polynomial kernel without a dimension is that
 of the points without it

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 9992cf2..8286dfb 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -273,7 +273,7 @@ namespace mltk{
                 for(i = 0; i < dim; ++i)
                     if(i != j)
                         sum += (*one)[i] * (*two)[i];
-                sum = (param > 1) ? std::pow(sum+1, param) : sum;
+                sum = (param > 1) ? std::pow(sum, param) : sum;
                 break;
 
             case mltk::GAUSSIAN: //Gaussiano
-- 
2.43.0


From b784a7548e0faf3e488667a7acc15c13e2980a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 28/52] fix: the dual norm accumulated the partial sums of
 every row

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 8286dfb..5c10d17 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -305,8 +305,9 @@ namespace mltk{
         for(i = 0; i < size; ++i){
             for(j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
+            sum1 = 0;
         }
 
         return sqrt(sum);
-- 
2.43.0


From 09bdb54c817b1d9eeeca365a2e4f171454ceb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:10 +0000
Subject: [PATCH 29/52] fix: distCentersWithoutFeats measured only the features
 to be excluded

---
 .../ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 895f021..c10abc2 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -286,10 +286,11 @@ namespace mltk::stats {
         }
 
         for(dist = 0.0, j = 0; j < dim; ++j){
+            bool ignored = (index >= 0 && fnames[j] == index);
             for(i = 0; i < featsize; ++i){
-                if(fnames[j] == feats[i])
-                    dist -= std::pow(avg_pos[j] - avg_neg[j], 2);
+                if(fnames[j] == feats[i]) ignored = true;
             }
+            if(!ignored) dist += std::pow(avg_pos[j] - avg_neg[j], 2);
         }
 
         return std::sqrt(std::fabs(dist));
-- 
2.43.0


From 7c972274c5ee782c05a8478872b2cc8ab677832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 30/52] fix: a scalar operand of a point expression is held by
 value (p = p * p[0] read the component being overwritten)

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
index 0afe96b..23a5359 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
@@ -11,7 +11,7 @@ namespace mltk{
     class  A_Scalar {
         private:
             /// value of the scalar
-            T const& value; 
+            T value;
         
         public:
             // Constructor initializes value
-- 
2.43.0


From f03bc504b5386bc156a5c466a583ffc4f89d11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 31/52] fix: compound assignment with a scalar taken from the
 point itself (p /= p[0]) used the already updated component

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 935d9da..e2f3050 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -369,7 +369,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator+=(T const& b) {
+            Point& operator+=(T b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] += b;
                 }
@@ -413,7 +413,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator-=(T const& b) {
+            Point& operator-=(T b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] -= b;
                 }
@@ -447,7 +447,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator*=(T const& b) {
+            Point& operator*=(T b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] *= b;
                 }
@@ -481,7 +481,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator/=(T const& b) {
+            Point& operator/=(T b) {
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] /= b;
                 }
-- 
2.43.0


From 0bbba770e60484895991f0d4194a98b9da0aa6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:55 +0000
Subject: [PATCH 32/52] fix: with two folds the test set of kfoldsplit was its
 training set

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..822e4e5 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,7 +474,7 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
             for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
-- 
2.43.0


From 0e8459459907265225e1e7cf295f53c0a64338b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:55 +0000
Subject: [PATCH 33/52] fix: splitting without stratification dropped the last
 size % parts points

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 91e8529..2a661f8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1906,6 +1906,10 @@ namespace mltk{
                 }
             }
         }
+        // distribute the remaining points
+        for(size_t i = 0; counter < this->size(); i++, counter++) {
+            partitions[i].insertPoint(data[counter], keepIndex);
+        }
         return partitions;
     }
 
-- 
2.43.0


From dea43e5897020ab29d5c7ab998a48a6d7363091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:24 +0000
Subject: [PATCH 34/52] fix: the rows of the confusion matrix are the true
 labels, as documented and as metricsReport reads them

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 822e4e5..d498d5f 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -596,7 +596,7 @@ namespace mltk::validation {
                 }
                 if (idp && idy) break;
             }
-            confusion_m[idp][idy]++;
+            confusion_m[idy][idp]++;
         }
         return confusion_m;
     }
-- 
2.43.0


From 87a398ea082477c20a8c52f40c0246dc5361758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:25 +0000
Subject: [PATCH 35/52] fix: the accuracy of metricsReport ignored the true
 negatives

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index d498d5f..4fd3398 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -566,7 +566,7 @@ namespace mltk::validation {
             }
         }
 
-        report.accuracy = (double)report.tp / data.size();
+        report.accuracy = (double)(report.tp + report.tn) / data.size();
         report.error = 1.0 - report.accuracy;
         report.errors = report.fp+report.fn;
         report.sensitivity = (double)report.tp/(report.tp + report.fn);
-- 
2.43.0


From d27e0df670fa4f62aa37a091819b89dbb6030289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:25 +0000
Subject: [PATCH 36/52] fix: classificationReport divided integers (rates 0 or
 1, division by zero for more than two labels) and used fn for the specificity

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 4fd3398..5d3b9de 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -628,10 +628,10 @@ namespace mltk::validation {
             }
         }
         report.accuracy /= real.size();
-        report.sensitivity = report.tp/(report.tp+report.fn);
-        report.specificity = report.tn/(report.fn+report.tn);
-        report.precision = report.tp/(report.tp+report.fp);
-        report.recall = report.tp/(report.tp+report.fn);
+        report.sensitivity = (double)report.tp/(report.tp+report.fn);
+        report.specificity = (double)report.tn/(report.tn+report.fp);
+        report.precision = (double)report.tp/(report.tp+report.fp);
+        report.recall = report.sensitivity;
         report.fscore = 2*(report.precision*report.recall)/(report.precision + report.recall);
         return report;
     }
-- 
2.43.0


From 927ce8be18672484f0bb312ad40eb38bb79c9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:08 +0000
Subject: [PATCH 37/52] fix: kfold added the counts of every earlier fold again
 at each fold

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 5d3b9de..fd21c16 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -320,7 +320,8 @@ namespace mltk::validation {
         ValidationReport solution;
 
         //Start cross-validation
-        for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
+        for(size_t j = 0; j < fold; ++j){
+            size_t fp = 0, fn = 0, tp = 0, tn = 0;
             auto _test_sample = folds[j].test;
             auto _train_sample = folds[j].train;
             
-- 
2.43.0


From 24eafa368082e79e14bef3b84a6d9d0029ab91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:08 +0000
Subject: [PATCH 38/52] fix: primal classifiers ignored raw_value (one-vs-all
 compares raw values)

---
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..29df06b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -53,6 +53,8 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
+
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From 199db09f2c6b0f1db3b0c96033f20094683fafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:08 +0000
Subject: [PATCH 39/52] fix: dual classifiers ignored raw_value (one-vs-all
 compares raw values)

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..e5a2bf7 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,8 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
+
                 return (func >= 0) ? 1 : -1;
             }
 
-- 
2.43.0


From 195ebae69db1e95296e2812b61084c88cddd1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:08 +0000
Subject: [PATCH 40/52] fix: with a diagonal distance matrix the evaluated
 point compared equal to every neighbour (not an ordering)

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp            | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..6084e7c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -98,7 +98,10 @@ namespace mltk{
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
                             
-                            if(idp == id1 || idp == id2) return false;
+                            // the distance of a point to itself is not stored
+                            if(idp == id1 && idp == id2) return false;
+                            if(idp == id1) return this->distances[std::max(idp, id2)][std::min(idp, id2)] > 0;
+                            if(idp == id2) return false;
 
                             size_t idp1 = (idp > id1) ? idp : id1;
                             size_t id1p = (idp > id1) ? id1 : idp;
-- 
2.43.0


From dfa96e4d91b225034e9490b2eeea618756c63dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 41/52] fix: the distance matrix of a shuffled dataset mixed
 positions and identifiers (wrong and missing entries, race between threads)

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp     | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..25bbd5b 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -40,17 +40,15 @@ namespace mltk::metrics::dist {
             
             auto loop = [data, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    // rows and columns follow the identifiers, which need not be in order (shuffled data)
+                    const size_t row = data(idx).Id()-1;
+                    this->rows[row] = mltk::Point<double>((isDiagonal) ? row+1 : data.size());
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
+                    for(size_t j = 0; j < data.size(); j++){
+                        const size_t col = data(j).Id()-1;
+                        if(col == row || (isDiagonal && col > row)) continue;
+                        this->rows[row][col] = this->dist_function(data(idx), data(j));
                     }
-                    
-                    if(isDiagonal) continue;
-
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
                 }
             };
 
-- 
2.43.0


From 4d27983cdf759b6e5f2fc86d334af81824b70eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 42/52] fix: k-means could start from a centre one past the
 last point

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..d2db676 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -104,7 +104,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size) - 1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -113,7 +113,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size) - 1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -132,7 +132,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = mltk::random::intInRange(0, int(size) - 1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From d7aa9d011520c9cc1275619c1e2f99876db9bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 43/52] fix: the k-means centers were not the means of their
 clusters (old center added, empty clusters divided by zero)

---
 .../include/ufjfmltk/clusterer/KMeans.hpp          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index d2db676..7701d4d 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,16 +76,16 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
-                    for(const size_t id: cluster){
-                        this->m_centers[i] += *this->samples->point(id);
+                    // the center of an empty cluster stays where it is
+                    if(cluster.size() > 0){
+                        this->m_centers[i] = 0.0;
+                        for(const size_t id: cluster){
+                            this->m_centers[i] += *this->samples->point(id);
+                        }
+                        this->m_centers[i] /= cluster.size();
                     }
                     i++;
                 });
-                i = 0;
-                std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
-                   i++;
-                });
             }
 
             template<typename T, typename Callable>
-- 
2.43.0


From 14d54c1198be1dddf53f9020380c1cb0cf5deb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 44/52] fix: asking for the k-means clusters again listed every
 point once more

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 7701d4d..3a3eda3 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -185,6 +185,9 @@ namespace mltk{
 
             template<typename T, typename Callable>
             std::vector<mltk::Point<size_t>> KMeans<T, Callable>::clusters() {
+                for(auto& cluster: this->m_clusters){
+                    cluster.clear();
+                }
                 assign_clusters(this->samples->points());
                 return this->m_clusters;
             }
-- 
2.43.0


From 8dca70f39e8b0dc95d819bd420bd784e104bfc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:56 +0000
Subject: [PATCH 45/52] fix: the balanced perceptron never updated its bias

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..e036283 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -109,7 +109,7 @@ namespace mltk{
 
                         if (point->Y() != pred) {
                             weights += this->rate * (*point) * point->Y();
-                            bias += this->rate * bias;
+                            bias += this->rate * point->Y();
                             ite++;
                             errors++;
                         }
-- 
2.43.0


From 5b493c38b273ee95bd0b8ebd0c190f9ac222b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:56 +0000
Subject: [PATCH 46/52] fix: LMS updated the bias without the learning rate

---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 3c0eb2d..698f12c 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -64,7 +64,7 @@ namespace mltk{
                     //Verify if the point is a error
                     auto error = (input->Y() - func[j]);
                     w += this->rate * error * (*input);
-                    this->solution.bias += (input->Y() - func[j]);
+                    this->solution.bias += this->rate * error;
                     ++this->ctot;
                 }
                 cost_func *= 0.5;
-- 
2.43.0


From e66f57e1d7f9e6c2a46f946d9a25b5f0942138c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 47/52] fix: fixed margin dual perceptron with a margin trained
 not-a-number values

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index e036283..77e885a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -504,7 +504,7 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
 
                         for (r = 0; r < size; ++r) {
-- 
2.43.0


From 47701a5f8a5fe37cf1d88c988dffd76f2dced044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 48/52] fix: norm of the fixed margin dual perceptron used the
 value already updated

---
 .../include/ufjfmltk/classifier/Perceptron.hpp               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 77e885a..e157818 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -506,14 +506,15 @@ namespace mltk{
                     if (y * func[idx] - this->gamma * norm <= 0) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
+                        const double proj = func[idx] - bias;
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
+                        norm = sqrt(std::max(0.0, norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * proj +
+                                                  sqrate * (*K)[idx][idx]));
                         (*this->samples)[idx]->Alpha() += this->rate;
 
                         bias += this->rate * y;
-- 
2.43.0


From de4e13f4eba88e3d801a730c8a9dc22a84a74674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 49/52] fix: largest weight of the fixed margin perceptron
 missed the update of the first weight

---
 .../include/ufjfmltk/classifier/Perceptron.hpp               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index e157818..73eff6a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -295,7 +295,6 @@ namespace mltk{
                             }
                             norm = sqrt(sumnorm);
                         } else if (this->q == -1.0) { //L1
-                            largw_temp = fabs(w[0]);
                             n_temp = 1;
                             for (j = 0; j < dim; ++j) {
                                 if (largw == 0 || fabs(largw - fabs(w[j])) / largw < this->EPS) {
@@ -305,7 +304,9 @@ namespace mltk{
                                 } else
                                     w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    largw_temp = fabs(w[0]);
+                                } else {
                                     if (fabs(largw_temp - fabs(w[j])) / largw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(w[j]) > largw_temp) {
-- 
2.43.0


From 201d6d0df16a51e04f018446e73d5a30b2868dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 50/52] fix: perceptron without time to train reported success

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 73eff6a..57375a8 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         template<typename T>
         bool PerceptronPrimal<T>::train() {
             size_t size = this->samples->size(), dim = this->samples->dim();
-            int i, j, e = 0, idx;
+            int i, j, e = 1, idx;
             double y, time = this->start_time + this->max_time;
             bool cond;
             std::vector<double> func(size, 0);
-- 
2.43.0


From 43e4d17343deddf36c768253ea96312cb7da54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 51/52] fix: k-means++ with points that all coincide with a
 center

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 3a3eda3..ed19cc5 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -127,7 +127,8 @@ namespace mltk{
                                            return d;
                                        });
                         for (double &distance : distances) {
-                            distance /= sum_d;
+                            // all points may coincide with the last center
+                            distance = sum_d > 0 ? distance / sum_d : 1.0;
                         }
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
-- 
2.43.0


From 117fbea6ff6274b0cafe711987e373e3367db73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:13 +0000
Subject: [PATCH 52/52] fix: a hard vote overwrote the weights set for soft
 voting

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp       | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..8858028 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -38,11 +38,8 @@ namespace mltk{
             double evaluate(const Point<T> &p, bool raw_value = false) override {
                 auto _classes = this->samples->classes();
                 mltk::Point<double> votes(_classes.size(), 0.0);
-                if (voting_type == "soft") {
-                    assert(this->weights.size() > 0);
-                } else {
-                    this->weights = Point<double>(this->m_learners.size(), 1);
-                }
+                const bool soft = voting_type == "soft";
+                assert(!soft || this->weights.size() > 0);
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     auto pred = this->m_learners[i]->evaluate(p);
                     // get prediction position
@@ -50,7 +47,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += this->weights[i];
+                    votes[pred_pos] += soft ? this->weights[i] : 1.0;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0

