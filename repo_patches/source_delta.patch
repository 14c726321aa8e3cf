From d55a7f35e2fef4c2bcb98f30caeffacd3e24d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 01/43] fix: ZZ no longer negates INT64_MIN or evaluates
 INT64_MIN % -1 in int64_t

---
 clpoly/number/ZZ.hh | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..c3dd411 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -388,18 +388,18 @@ public:
             if (b._val >= 0)
                 mpz_add_ui(res._mpz, res._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(res._mpz, res._mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(res._mpz, res._mpz, -static_cast<unsigned long>(b._val));
         } else if (a._is_small()) {
             if (a._val >= 0)
                 mpz_add_ui(res._mpz, b._mpz, static_cast<unsigned long>(a._val));
             else {
-                mpz_sub_ui(res._mpz, b._mpz, static_cast<unsigned long>(-a._val));
+                mpz_sub_ui(res._mpz, b._mpz, -static_cast<unsigned long>(a._val));
             }
         } else if (b._is_small()) {
             if (b._val >= 0)
                 mpz_add_ui(res._mpz, a._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(res._mpz, a._mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(res._mpz, a._mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_add(res._mpz, a._mpz, b._mpz);
         }
@@ -421,7 +421,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(res._mpz, res._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(res._mpz, res._mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(res._mpz, res._mpz, -static_cast<unsigned long>(b._val));
         } else if (a._is_small()) {
             _mpz_set_s64(res._mpz, a._val);
             mpz_sub(res._mpz, res._mpz, b._mpz);
@@ -429,7 +429,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(res._mpz, a._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(res._mpz, a._mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(res._mpz, a._mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_sub(res._mpz, a._mpz, b._mpz);
         }
@@ -539,7 +539,7 @@ public:
             if (b._val >= 0)
                 mpz_add_ui(_mpz, _mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(_mpz, _mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(_mpz, _mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_add(_mpz, _mpz, b._mpz);
         }
@@ -560,7 +560,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(_mpz, _mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(_mpz, _mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(_mpz, _mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_sub(_mpz, _mpz, b._mpz);
         }
@@ -694,7 +694,7 @@ public:
         if (_is_small()) {
             if (_val >= 0) return static_cast<uint64_t>(_val) % d;
             // negative: floor mod = d - ((-val) % d), but 0 if divides evenly
-            uint64_t r = static_cast<uint64_t>(-_val) % d;
+            uint64_t r = (-static_cast<uint64_t>(_val)) % d;
             return r == 0 ? 0 : d - r;
         }
         return mpz_fdiv_ui(_mpz, d);
@@ -704,7 +704,6 @@ public:
     size_t sizeinbase(int base) const {
         if (_is_small()) {
             if (_val == 0) return 1;
-            int64_t v = _val < 0 ? -_val : _val;
             // Special case: _val == INT64_MIN, -_val overflows
             if (_val == INT64_MIN) {
                 mpz_t tmp;
@@ -714,6 +713,7 @@ public:
                 mpz_clear(tmp);
                 return r;
             }
+            int64_t v = _val < 0 ? -_val : _val;
             size_t count = 0;
             while (v > 0) { v /= base; ++count; }
             return count;
@@ -810,7 +810,7 @@ public:
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
         if (a._is_small() && b._is_small()) {
             if (b._val == 0) throw std::domain_error("ZZ: division by zero");
-            int64_t rem = a._val % b._val;
+            int64_t rem = b._val == -1 ? 0 : a._val % b._val; // INT64_MIN % -1 traps
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
@@ -920,12 +920,12 @@ inline ZZ pow(const ZZ& base, uint64_t exp) {
 inline ZZ gcd(const ZZ& a, const ZZ& b) {
     if (a._is_small() && b._is_small()) {
         // Simple GCD for small integers
-        int64_t x = a._val < 0 ? -a._val : a._val;
-        int64_t y = b._val < 0 ? -b._val : b._val;
         // Handle INT64_MIN
         if (a._val == INT64_MIN || b._val == INT64_MIN) {
             // fall through to mpz
         } else {
+            int64_t x = a._val < 0 ? -a._val : a._val;
+            int64_t y = b._val < 0 ? -b._val : b._val;
             while (y) { int64_t t = y; y = x % y; x = t; }
             return ZZ(x);
         }
-- 
2.43.0


From c5a580f1ec57c5f545ba4e7208ac40082e1eb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 02/43] fix: ZZ division by zero throws for multi-word
 dividends too

---
 clpoly/number/ZZ.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index c3dd411..3a53a72 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -480,6 +480,7 @@ public:
             }
             return ZZ(a._val / b._val);
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         ZZ res;
         res._mpz = _mpz_new();
         if (a._is_small()) {
@@ -506,6 +507,7 @@ public:
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: modulo by zero");
         ZZ res;
         res._mpz = _mpz_new();
         if (a._is_small()) {
@@ -747,6 +749,7 @@ public:
             q._val = quot;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         q._ensure_mpz();
         if (a._is_small()) {
             mpz_t ta;
@@ -787,6 +790,7 @@ public:
             r._val = rem;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         q._ensure_mpz();
         r._ensure_mpz();
         if (a._is_small()) {
@@ -817,6 +821,7 @@ public:
             r._val = rem;
             return;
         }
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         r._ensure_mpz();
         if (a._is_small()) {
             mpz_t ta;
-- 
2.43.0


From efe9788dc2b558a02c80f811b90a81b182567053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 03/43] fix: reading a rational with zero denominator throws
 instead of storing it

---
 clpoly/number/QQ.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index e636b15..c86aa6b 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -166,9 +166,8 @@ public:
             q._num = ZZ(s);
             q._den = ZZ(1);
         } else {
-            q._num = ZZ(s.substr(0, pos));
-            q._den = ZZ(s.substr(pos + 1));
-            q._canonicalize();
+            // throws std::domain_error on a zero denominator
+            q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));
         }
         return is;
     }
-- 
2.43.0


From e2d186caae488688ac8201f894c49f9c89777868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 04/43] fix: normalization drops like terms that cancel to zero

---
 clpoly/basic.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..49cfd74 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -116,11 +116,16 @@ namespace clpoly{
                     t1->second+=t2->second;//add_assignment
                 else
                 {
-                    ++t1;
-                    ++tmp_size;
+                    if (!zore_check<T2>()(t1->second)) //a sum that cancelled is overwritten
+                    {
+                        ++t1;
+                        ++tmp_size;
+                    }
                     if (t1!=t2)
                         *t1=std::move(*t2);
                 }
+        if (zore_check<T2>()(t1->second))
+            --tmp_size;
         return tmp_size;
     }
     template <class T,class Tv,class compare>
-- 
2.43.0


From cb1246f566d5cecc564f24f7a7d23e0d26a025b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 05/43] fix: adding a constant to a polynomial handles the zero
 polynomial, zero and cancellation

---
 clpoly/polynomial_.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..d4cb2e8 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -179,8 +179,14 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (zore_check<Tc>()(m))
+            return O;
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
+            if (zore_check<Tc>()(O.back().second))
+                O.pop_back();
+        }
         else
             O.push_back({{},std::move(m)});
         return O;
-- 
2.43.0


From 8a2efe84135850c81035b2699c797c6d4cf7225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 06/43] fix: p*0 and pow(p,0) keep the polynomial's order
 object

---
 clpoly/polynomial_.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index d4cb2e8..6d9ffd8 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -56,6 +56,7 @@ namespace clpoly{
         switch (i)
         {
         case 0:
+            o.normalization(); //the constant monomial carries p's order
             return o;
         case 1:
             return p;
@@ -228,7 +229,7 @@ namespace clpoly{
     polynomial_<Tc,comp> operator* (polynomial_<Tc,comp>  O,Tc c)
     {
         if (!c)
-            return polynomial_<Tc,comp>();
+            return polynomial_<Tc,comp>(O.comp_ptr());
         for (auto & i:O)
             i.second*=c;
         O.normalization();
-- 
2.43.0


From fff65c91f7f29c7521881bec0e04ad738ec6ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 07/43] fix: packed monomial products are range-checked
 (dangling else skipped the check)

---
 clpoly/monomial_order.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..0b9e9d1 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,10 +221,15 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
+        if (vars.size()+1>64) return false;
         if (delta)
+        {
             if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
+        }
         else
+        {
             if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
+        }
         return true;
     }
     template<class var_comp>
@@ -443,10 +448,15 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
+        if (vars.size()>64) return false;
         if (delta)
+        {
             if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
-        else    
+        }
+        else
+        {
             if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
+        }
         return true;
     }
     template<class var_order>
-- 
2.43.0


From 1fc54ce7744ca053eca8906f22bec3ca82eb663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 08/43] fix: no 64-bit shift of a 64-bit word in packed
 monomials

---
 clpoly/monomial_order.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 0b9e9d1..0934cbb 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -271,7 +271,7 @@ namespace clpoly{
         {
             unsigned int l=64/(vars.size()+1);
             unsigned int ll=l*vars.size();
-            uint64_t mod=(uint64_t(1)<<(l*(vars.size()+1)))-(uint64_t(1)<<ll);
+            uint64_t mod=((uint64_t(1)<<l)-1)<<ll;
             m.deg()=(mc & mod)>>ll;
             uint64_t part;
             for (auto &i:vars)
@@ -468,7 +468,8 @@ namespace clpoly{
         auto m_ptr=m.begin();
         for (auto &i:vars)
         {
-            mc<<=l;
+            if (l<64)
+                mc<<=l;
             if (m_ptr!=m.end()  && i == m_ptr->first)
             {
                 mc+=m_ptr->second;
@@ -490,16 +491,15 @@ namespace clpoly{
         if (l==64)
             mod=-1;
         else
-            mod=(uint64_t(1)<<(l*(vars.size())))-(uint64_t(1)<<ll);
-        uint64_t deg;
+            mod=((uint64_t(1)<<l)-1)<<ll;
         uint64_t part;
         for (auto &i:vars)
         {
             part=(mc & mod)>>ll;
             if (part!=0)
                 m.push_back({i,part});
-            mc<<=l;
-          
+            if (l<64)
+                mc<<=l;
         }
 
     }
-- 
2.43.0


From e05223c89ece9e83d60270cc5de7f28cb92cc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 09/43] fix: pow(0,0) keeps the order object as well

---
 clpoly/polynomial_.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 6d9ffd8..6454a27 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -44,6 +44,7 @@ namespace clpoly{
             if (i == 0) {
                 if constexpr (std::is_constructible_v<Tc, int>) {
                     o.data().push_back(std::make_pair(Tm(), Tc(1)));
+                    o.normalization(); //the constant monomial carries p's order
                 } else {
                     assert(false && "pow(empty polynomial, 0): no coefficient context");
                 }
-- 
2.43.0


From 524a046e5419ac88fd6cdb549757bcb9cd47a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 10/43] fix: inexact integer division returns the true
 remainder and no zero quotient terms

---
 clpoly/basic.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 49cfd74..29b41be 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -608,7 +608,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
@@ -746,7 +747,7 @@ namespace clpoly{
                 {
                     __div(k,k1,i.second,v2_.begin()->second);
                     if (k1)
-                        R.push_back({m,std::move(k1)});
+                        R.push_back({i.first,std::move(k1)});
                     if (k)
                         new_v.push_back({std::move(m),std::move(k)});
 
@@ -827,7 +828,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
-- 
2.43.0


From 965e5af548120b39c55cb50e0c4e7d3b81a815f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 11/43] fix: univariate packed division accepts exponent gaps
 of 2^31 and more

---
 clpoly/monomial_order.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 0934cbb..de2335b 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -290,6 +290,7 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size<=1) return uint64_t(1)<<63; //one exponent fills the word
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
-- 
2.43.0


From aee6ee64d6a3091be437ea4bc46816ee83ae8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/43] fix: packed division falls back when an intermediate
 exponent outgrows its field

---
 clpoly/monomial.hh | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..1561587 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -366,8 +366,17 @@ namespace clpoly
         std::size_t i, j, s,i1;
         T2 k;
         T2 k1;
+        bool overflow=false; //a product reached the guard bit of an exponent field
         while (heap_size!=0 || v1_ptr!=v1_end)
         {
+            if (overflow)
+            {
+                delete [] heap;
+                delete [] lin;
+                delete [] node;
+                new_v.clear();
+                return false;
+            }
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
                 m=v1_ptr->first;
@@ -388,6 +397,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        if (heap[0]->mono & mold) overflow=true;
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -417,6 +427,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            if (node[reset_h].mono & mold) overflow=true;
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -491,8 +502,18 @@ namespace clpoly
         T2 k;
         T2 k1;
         T2 k2;
+        bool overflow=false; //a product reached the guard bit of an exponent field
         while (heap_size!=0 || v1_ptr!=v1_end)
         {
+            if (overflow)
+            {
+                delete [] heap;
+                delete [] lin;
+                delete [] node;
+                new_v.clear();
+                R.clear();
+                return false;
+            }
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
                 m=v1_ptr->first;
@@ -513,6 +534,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        if (heap[0]->mono & mold) overflow=true;
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -546,6 +568,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            if (node[reset_h].mono & mold) overflow=true;
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
-- 
2.43.0


From 36949311634ee9dca58d4e6e8384b75574aa7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 13/43] fix: derivative over Z/p drops terms whose coefficient
 vanishes

---
 clpoly/polynomial.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..ed7a16a 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c=b*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c=i.first.front().second*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
-- 
2.43.0


From e76f6385c4ef15322866de444fe0886354a08efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 14/43] fix: is_normal() of an empty monomial or polynomial
 reads no element

---
 clpoly/basic.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 29b41be..ae053a4 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -76,6 +76,8 @@ namespace clpoly{
     template <class T1,class T2,class compare>
     inline bool pair_vec_normal_check(const std::vector<std::pair<T1,T2>> & v,const compare & comp )
     {
+        if (v.empty())
+            return true;
         auto t2=v.begin();++t2;
         auto t1=v.begin();
         auto e=v.end();
-- 
2.43.0


From 6e6ec44c72637229d7f37a72caa4195d64b3750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 15/43] fix: coeff(F,v) of a univariate-priority polynomial
 uses v, not F's own priority variable

---
 clpoly/polynomial.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index ed7a16a..ec73a0d 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -203,12 +203,12 @@ namespace clpoly{
     {
         univariate_priority_order comp_v(v);
         polynomial_<Tc,univariate_priority_order> F_(&comp_v);
-        F_=F;
+        poly_convert(F,F_);
         auto coeff_l=coeff(F_);
         std::vector<polynomial_<Tc,comp>>  coF(coeff_l.size(),polynomial_<Tc,comp>(F.comp_ptr()));
         for (size_t i=0;i<coeff_l.size();++i)
         {
-            coF[i]=coeff_l[i];
+            poly_convert(coeff_l[i],coF[i]);
         }
         return coF;
     }
-- 
2.43.0


From b8ea05dd69103b5fc429578700777ec088d1163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 16/43] fix: multivariate gcd gives up on an unlucky prime
 instead of drawing evaluation points forever

---
 clpoly/polynomial_gcd.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..10ec365 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -889,6 +889,7 @@ namespace clpoly{
             std::mt19937_64 gen(rd());
             std::uniform_int_distribution<uint64_t> dis(0, prime-1);
             std::unordered_set<uint64_t> used_points;
+            int64_t num_bad=0; // evaluation points rejected because the image degree exceeds deg
             // 上界 prime 看似巨大（≈2^64），但循环总在 O(v_d + deg) 次内通过
             // line 971 的 return 退出：坏点（leading coeff 为零）最多 max(f_d,g_d) 个，
             // 好点只需 v_d 个。line 1038 的 early exit 处理 prime < v_d 的极端情况。
@@ -1042,7 +1043,12 @@ namespace clpoly{
                         
                         
                     }
-                    
+                    else if (++num_bad>v_d)
+                    {
+                        // almost every image has a larger degree: the prime (or an
+                        // earlier point) is unlucky, no number of points will do
+                        return -1;
+                    }
 
                 }
                 if (prime<=i+v_d-num_s)
-- 
2.43.0


From ffeea066d6322759473227fcba43691e0f59660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 17/43] fix: CRT of a gcd coefficient that vanished modulo
 earlier primes no longer wraps at 2^64

---
 clpoly/polynomial_gcd.cc | 4 ++--
 clpoly/polynomial_gcd.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 43f1ed6..e976d3f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -265,7 +265,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -279,7 +279,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime;
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 10ec365..8374b65 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -383,7 +383,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -397,7 +397,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime; 
-- 
2.43.0


From 9d9a0d711519520dcb10591c43a25bbdb5ca5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 18/43] fix: squarefreebasis does not split a member into
 itself and a constant -1

---
 clpoly/polynomial_gcd.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 8374b65..b092c2b 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -179,9 +179,10 @@ namespace clpoly{
                     if (!is_number(F1))
                     {
                         tmp=tmp/F1;
-                        if (F1!=lst[j])
+                        auto F2=lst[j]/F1;
+                        if (!is_number(F2)) // F1 may be -lst[j]
                         {
-                            lst[j]=lst[j]/F1;
+                            lst[j]=std::move(F2);
                             lst_.push_back(std::move(F1));
                             I_.push_back(I[j]);
                             I_.back().push_back({i,l_ptr->second});
-- 
2.43.0


From d8bd6146e2f4db883f9ab56780bc2e5cbf9dcbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 19/43] fix: content of a one-term univariate polynomial is
 positive like every other content

---
 clpoly/polynomial_gcd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index b092c2b..69f9ffc 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -1068,7 +1068,7 @@ namespace clpoly{
         if (G.empty())
             return 1;
         auto ptr=G.begin();
-        ZZ c=(ptr++)->second;
+        ZZ c=abs((ptr++)->second);
         for (;ptr!=G.end();++ptr)
         {
             c=gcd(c,ptr->second);
-- 
2.43.0


From 6af6ecc38e7ba962f408160ea453faddb0a385f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 20/43] fix: factorization finds an evaluation point when
 leading-coefficient factors share a fixed divisor

---
 clpoly/polynomial_factorize_wang.hh | 33 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 8c28278..e3763f6 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1187,7 +1187,7 @@ namespace clpoly{
     // ================================================================
 
     // §4.2 选取值点: 返回 α = {x₂→α₂,...,xₙ→αₙ}
-    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子求值两两互素
+    // 满足 (a) f(x₁,α) 无平方 (b) lc(f,x₁)(α)≠0 (d) lc 因子求值各有独有的素因子
     template<class var_order>
     std::map<variable, ZZ>
     __select_eval_point(
@@ -1275,7 +1275,7 @@ namespace clpoly{
                 }
             }
 
-            // 条件 (d): lc 因子求值两两互素
+            // 条件 (d): lc 因子求值各有独有的素因子
             if (!lc_irr_factors.empty())
             {
                 std::vector<ZZ> vals;
@@ -1293,13 +1293,20 @@ namespace clpoly{
                 for (auto& v : vals)
                     if (v <= ZZ(1)) { bad_point = true; break; }
                 if (bad_point) continue;
-                // 两两互素
-                bool pairwise_coprime = true;
-                for (size_t i = 0; i < vals.size() && pairwise_coprime; ++i)
-                    for (size_t j = i + 1; j < vals.size() && pairwise_coprime; ++j)
-                        if (gcd(vals[i], vals[j]) != ZZ(1))
-                            pairwise_coprime = false;
-                if (!pairwise_coprime) continue;
+                // 每个值须保留与前面各值互素的部分 > 1。不要求两两互素:
+                // lc 因子可有公共固定因子 (如 y²+y+2 与 y²+y+4 恒为偶数)。
+                for (size_t i = 1; i < vals.size() && !bad_point; ++i)
+                    for (size_t j = 0; j < i && !bad_point; ++j)
+                    {
+                        ZZ r = gcd(vals[i], vals[j]);
+                        while (r != ZZ(1))
+                        {
+                            vals[i] = vals[i] / r;
+                            r = gcd(vals[i], r);
+                        }
+                        if (vals[i] == ZZ(1)) bad_point = true;
+                    }
+                if (bad_point) continue;
             }
 
             if (skip > 0) { --skip; continue; }
@@ -1407,8 +1414,8 @@ namespace clpoly{
 
             // Non-divisor 检查 (GCL §8.7 condition 3 / SymPy non_divisors / FLINT lcc_wang)
             // 每个 Eⱼ 在剥离与 cs·γ 及之前 E 值的共享素因子后，必须有残余 > 1（identifying prime）
+            std::vector<ZZ> d = { abs(uni_content * gamma) };
             {
-                std::vector<ZZ> d = { abs(uni_content * gamma) };
                 for (size_t j = 0; j < m; ++j)
                 {
                     ZZ q = lc_evals[j];
@@ -1433,13 +1440,15 @@ namespace clpoly{
             {
                 ZZ R = abs(w[i]);
 
-                // 遍历顺序不影响正确性（Eⱼ 已 pairwise coprime），逆序与 SymPy/FLINT 一致便于对比
+                // 逆序: dⱼ = d[j+1] 与 cs·γ 及 E₀..Eⱼ₋₁ 互素，故 Eⱼ 的幂次由 dⱼ 唯一确定
                 for (int j = (int)m - 1; j >= 0; --j)
                 {
                     ZZ Ej = lc_evals[j];
                     int k = 0;
-                    while (R % Ej == ZZ(0))
+                    for (ZZ Q = R; Q % d[j + 1] == ZZ(0); Q = Q / d[j + 1])
                     {
+                        if (R % Ej != ZZ(0))
+                            return result;  // 非真因子的像，换点
                         R = R / Ej;
                         k++;
                     }
-- 
2.43.0


From 5311ca0b3068ebe314167bdc055b1929afacff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 21/43] fix: multivariate lifting takes as many p-adic steps as
 the coefficient bound needs

---
 clpoly/polynomial_factorize_wang.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index e3763f6..b93acd6 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1113,10 +1113,8 @@ namespace clpoly{
                 forms[i].push_back(term.first);
 
         // C.4: p-adic 提升循环
-        // 63-bit 素数: l_max=5 → 可恢复 ~(2^63)^5 ≈ 10^95 范围的系数
-        constexpr int l_max = 5;
-
-        for (int l = 1; l < l_max && M <= ZZ(2) * B; l++)
+        // 步数由系数界 B 决定: 固定步数会使更大的因子系数永远无法恢复
+        while (M <= ZZ(2) * B)
         {
             // C.4.1: 计算 Z 上精确误差
             Poly product = result[0];
-- 
2.43.0


From 30a5e83750256c51c8f9779cdda663c34ec12cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 22/43] fix: p-adic recovery of large coefficients starts from
 the exact leading coefficients

---
 clpoly/polynomial_factorize_wang.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index b93acd6..b48fe79 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1101,6 +1101,18 @@ namespace clpoly{
         if (M > ZZ(2) * B)
             return result;   // 单次约化足够
 
+        // 前导系数在 Z 上已知: 用精确值替换其 mod p 像。否则误差在 x1 最高次
+        // 不为零，而 p-adic MDP 的解次数低于因子次数，无解
+        for (int i = 0; i < r; i++)
+        {
+            if (result[i].empty()) continue;
+            basic_monomial<lex_<var_order>> m_x1d(comp_ptr);
+            m_x1d.push_back({main_var, degree(result[i], main_var)});
+            Poly x1d(comp_ptr);
+            x1d.push_back({m_x1d, ZZ(1)});
+            result[i] = result[i] + (lc_targets[i] - leadcoeff(result[i], main_var)) * x1d;
+        }
+
         // C.3: p-adic MDP 使用完整多变量 F（MTSHL-d 结果）作为余因子
         // 注意：不能使用单变量 F_base，因为 p-adic MDP 的余因子 ∏_{j≠i} F[j]
         // 是多变量的。__mtshl_sparse_int 会在 θ-array 点求值 F[i]，每个点得到
-- 
2.43.0


From 1cef36db9228e3fad6baab0b24d2141cf14b3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 23/43] fix: evaluation points without a leading-coefficient
 identifying prime are rejected before factoring

---
 clpoly/polynomial_factorize_wang.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index b48fe79..4170b22 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -1222,9 +1222,14 @@ namespace clpoly{
 
         // 预处理: 若 L 非常数，分解 L 用于条件 (d)
         std::vector<Poly> lc_irr_factors;
+        ZZ lc_content(1);
         if (!is_number(L))
         {
             auto lc_fac = factorize(L);
+            lc_content = lc_fac.content;
+            // 与 __wang_leading_coeff 相同的顺序
+            std::sort(lc_fac.factors.begin(), lc_fac.factors.end(),
+                [](const auto& a, const auto& b) { return a.second > b.second; });
             for (auto& [lj, ej] : lc_fac.factors)
                 lc_irr_factors.push_back(lj);
         }
@@ -1303,8 +1308,16 @@ namespace clpoly{
                 for (auto& v : vals)
                     if (v <= ZZ(1)) { bad_point = true; break; }
                 if (bad_point) continue;
-                // 每个值须保留与前面各值互素的部分 > 1。不要求两两互素:
+                // 每个值须保留与 cs·γ 及前面各值互素的部分 > 1 (与 __wang_leading_coeff
+                // 的 non-divisor 检查一致，避免其逐点拒绝)。不要求两两互素:
                 // lc 因子可有公共固定因子 (如 y²+y+2 与 y²+y+4 恒为偶数)。
+                ZZ cs_gamma = lc_content;
+                {
+                    ZZ cs(0);
+                    for (auto& term : f0) cs = gcd(cs, term.second);
+                    cs_gamma = abs(cs_gamma * cs);
+                }
+                vals.insert(vals.begin(), cs_gamma);
                 for (size_t i = 1; i < vals.size() && !bad_point; ++i)
                     for (size_t j = 0; j < i && !bad_point; ++j)
                     {
-- 
2.43.0


From cef33ed17df2a1295c2017b6ebe718c0af544642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 24/43] fix: multivariate lifting retries with another prime
 when a prime loses part of a factor's support

---
 clpoly/polynomial_factorize_wang.hh | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 4170b22..32d00d6 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -2306,20 +2306,22 @@ namespace clpoly{
                 if (var_dead[vi]) continue;
                 variable x1 = main_vars[vi];
 
-                // 首次访问此变量时，选择安全的 mtshl_p
-                if (var_mtshl_p[vi] == 0) {
-                    var_mtshl_p[vi] = UINT64_C(18446744073709551557);  // 2^64 - 59
+                // 下一个安全的 mtshl_p: lc 的系数不全被 p 整除 (即 p ∤ content(lc))
+                auto next_mtshl_p = [&](uint64_t p) {
                     auto L = leadcoeff(g, x1);
-                    // 检查 lc 的所有系数是否都被 p 整除 (即 p | content(lc))
-                    auto all_div = [&](uint64_t p) {
+                    auto all_div = [&](uint64_t q) {
                         for (const auto& term : L)
-                            if (term.second.fdiv_ui(p) != 0) return false;
+                            if (term.second.fdiv_ui(q) != 0) return false;
                         return true;
                     };
-                    while (all_div(var_mtshl_p[vi]))
-                        var_mtshl_p[vi] = prev_prime_64(var_mtshl_p[vi]);
-                }
-                uint64_t mtshl_p = var_mtshl_p[vi];
+                    do p = p ? prev_prime_64(p) : UINT64_C(18446744073709551557);  // 2^64 - 59
+                    while (all_div(p));
+                    return p;
+                };
+                // 首次访问此变量时，选择安全的 mtshl_p
+                if (var_mtshl_p[vi] == 0)
+                    var_mtshl_p[vi] = next_mtshl_p(0);
+                uint64_t& mtshl_p = var_mtshl_p[vi];
 
                 int batch_end = var_skip[vi] + BATCH_SIZE;
 
@@ -2352,6 +2354,9 @@ namespace clpoly{
                     auto mv_factors = __mtshl_lift(
                         lc_result.f_scaled, lc_result.scaled_factors,
                         lc_result.lc_targets, eval, x1, mtshl_p);
+                    // 若失败，下个求值点换用另一素数: 因子系数的 p-adic 数字为零会使
+                    // 支撑丢失，而这与求值点无关
+                    mtshl_p = next_mtshl_p(mtshl_p);
                     if (mv_factors.empty())
                         continue;
 
-- 
2.43.0


From b82ac1e6a222be827b188a5975da0bb9cd35f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 25/43] fix: gcd keeps accumulating scaled images after a
 failed trial division

---
 clpoly/polynomial_gcd.cc | 3 ++-
 clpoly/polynomial_gcd.hh | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index e976d3f..eb8694f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -324,7 +324,8 @@ namespace clpoly{
                         return {{0,cont_gcd}};
                     }
                 }
-                std::swap(tmp_Pout_.data(),Pout_.data());
+                else // a failed trial division leaves the primitive part in tmp_Pout_
+                    std::swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 69f9ffc..7d57c19 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -442,7 +442,8 @@ namespace clpoly{
                         return cont_gcd;
                     }
                 }
-                swap(tmp_Pout_.data(),Pout_.data());
+                else // a failed trial division leaves the primitive part in tmp_Pout_
+                    swap(tmp_Pout_.data(),Pout_.data());
                        
             }
             prime = prev_prime_64(prime);
-- 
2.43.0


From e1ff254140332b5ba6c8787988ad08840554f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 26/43] fix: multivariate lifting gives up on over-split images
 instead of expanding them

---
 clpoly/polynomial_factorize_wang.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clpoly/polynomial_factorize_wang.hh b/clpoly/polynomial_factorize_wang.hh
index 32d00d6..6139f2c 100644
--- a/clpoly/polynomial_factorize_wang.hh
+++ b/clpoly/polynomial_factorize_wang.hh
@@ -925,6 +925,13 @@ namespace clpoly{
                     forms[i].push_back(term.first);
             }
 
+            // 真因子的截断对 xj 的次数之和不超过 D_j。超过说明单变量因子过度分裂，
+            // 此点不可用；继续提升只会使 F[i] 稠密膨胀
+            int64_t sum_deg = 0;
+            for (int i = 0; i < r; i++)
+                sum_deg += degree(F[i], xj);
+            if (sum_deg > D_j) return false;
+
             // 全量重算误差
             error = aj - product_F();
             error.normalization();
-- 
2.43.0


From a1c6d69487d5b050d59c7137cb8e7b22d775bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 27/43] fix: __lll_reduce looped forever on linearly dependent
 rows

---
 clpoly/polynomial_factorize_univar.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clpoly/polynomial_factorize_univar.hh b/clpoly/polynomial_factorize_univar.hh
index 0d4e095..0186ea7 100644
--- a/clpoly/polynomial_factorize_univar.hh
+++ b/clpoly/polynomial_factorize_univar.hh
@@ -1100,6 +1100,12 @@ namespace clpoly{
                     B_gs[k]     = B_gs[k] * B_gs[k - 1] / B_new;
                     B_gs[k - 1] = B_new;
                 }
+                else
+                {
+                    // 线性相关行 (b_k^* = 0 且 mu = 0)：两个 b^* 直接互换
+                    B_gs[k]     = B_gs[k - 1];
+                    B_gs[k - 1] = QQ(0);
+                }
                 row_swap(k, k - 1);
                 std::swap(mu[k], mu[k - 1]);
                 // swap 后 mu[k][k-1] 为 0（来自原 mu[k-1][k-1]），显式写入
@@ -1110,6 +1116,8 @@ namespace clpoly{
                     QQ t        = mu[j][k];
                     mu[j][k]    = mu[j][k - 1] - mu_old * t;
                     mu[j][k - 1] = t + mu_new * mu[j][k];  // mu[j][k] 已是更新后的值
+                    if (B_gs[k] == QQ(0))
+                        mu[j][k] = QQ(0);  // 约定：b_k^* = 0 时系数取 0（与初始化一致）
                 }
                 k = std::max(k - 1, 1);
             }
-- 
2.43.0


From 69388f84848b5d9bad824eb23261f287448c6818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 28/43] fix: subresultant chain lost the degree-one entry after
 a degree drop

---
 clpoly/resultant.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/resultant.hh b/clpoly/resultant.hh
index f9b9dd3..af12120 100644
--- a/clpoly/resultant.hh
+++ b/clpoly/resultant.hh
@@ -358,7 +358,7 @@ namespace clpoly{
             if (r<j)
             {
                 
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(R_,S_j);
                     if (j-r<2)
@@ -426,7 +426,7 @@ namespace clpoly{
                 //std::cout<<"R_j"<<":"<<tmp1<<std::endl;
                 leadcoeff(R_,S_j_1);
                 //std::cout<<"R_j+1"<<":"<<R_<<std::endl;
-                if (r!=1)
+                if (r!=1 || is_list)
                 {
                     leadcoeff(tmp1,S_j);
                     if (j-r<2)
-- 
2.43.0


From 6a6832a8e0d0ddd9a5905d2c586de09ef060e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 29/43] fix: normal_form and s_polynomial over the integers
 divided coefficients with truncation

---
 clpoly/groebner.hh | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/clpoly/groebner.hh b/clpoly/groebner.hh
index a10e36a..4272240 100644
--- a/clpoly/groebner.hh
+++ b/clpoly/groebner.hh
@@ -65,6 +65,20 @@ namespace clpoly {
         return __s_polynomial(f, g);
     }
 
+    // ZZ 系数不能作除法: 在 QQ 上计算再清分母 (结果差一个正整数倍)
+    template<class comp>
+    inline polynomial_<ZZ, comp> s_polynomial(
+        const polynomial_<ZZ, comp>& f,
+        const polynomial_<ZZ, comp>& g)
+    {
+        polynomial_<QQ, comp> fq(f.comp_ptr()), gq(g.comp_ptr());
+        poly_convert(f, fq);
+        poly_convert(g, gq);
+        polynomial_<ZZ, comp> S(f.comp_ptr());
+        poly_convert(__s_polynomial(fq, gq), S);
+        return S;
+    }
+
     // ===== M3: Normal Form（多除数约化） =====
 
     template<class Tc, class comp>
@@ -166,6 +180,27 @@ namespace clpoly {
         return __normal_form(f, G);
     }
 
+    // ZZ 系数: 同上，在 QQ 上约化再清分母
+    template<class comp>
+    inline polynomial_<ZZ, comp> normal_form(
+        const polynomial_<ZZ, comp>& f,
+        const std::vector<polynomial_<ZZ, comp>>& G)
+    {
+        polynomial_<QQ, comp> fq(f.comp_ptr());
+        poly_convert(f, fq);
+        std::vector<polynomial_<QQ, comp>> Gq;
+        Gq.reserve(G.size());
+        for (auto& g : G)
+        {
+            polynomial_<QQ, comp> gq(g.comp_ptr());
+            poly_convert(g, gq);
+            Gq.push_back(std::move(gq));
+        }
+        polynomial_<ZZ, comp> r(f.comp_ptr());
+        poly_convert(__normal_form(fq, Gq), r);
+        return r;
+    }
+
     // ===== 辅助: 首一化（逐系数除以 LC） =====
 
     template<class Tc, class comp>
-- 
2.43.0


From c99c651b3dce4f831a26169d1145620f2c509e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 30/43] fix: basset and Wucharset never returned on a system
 containing the zero polynomial

---
 clpoly/charset.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index add38c1..79c986a 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -78,7 +78,9 @@ namespace clpoly{
     (InputIt first,InputIt second)
     {
         if(first==second) return {};
-        std::vector<polynomial_<Tc,lex_<custom_var_order>>> F(first,second),B,Temp;
+        std::vector<polynomial_<Tc,lex_<custom_var_order>>> F,B,Temp;
+        for(;first!=second;++first)
+            if(!first->empty()) F.push_back(*first);
         while(!F.empty())
         {
             //找最小秩的多项式b
@@ -109,7 +111,7 @@ namespace clpoly{
             C=basset<Tc>(F.begin(),F.end());
             // std::cout<<"C="<<C<<std::endl;
             // SHOW(C)
-            if(is_number(C[0])) return C;
+            if(C.empty() || is_number(C[0])) return C;
             for(auto f:F)
             {
                 // std::cout<<"f1="<<f<<std::endl;
@@ -471,7 +473,7 @@ namespace clpoly{
             //std::cout<<"C="<<i<<std::endl;
         }
         
-        if(is_number(C[0])) return T;
+        if(!C.empty() && is_number(C[0])) return T;
 
         T.push_back(C);
         for(auto f:C)
-- 
2.43.0


From d37b64b0a5eee82295a602155d063f9c995df7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 31/43] fix: wrsd erased the end() iterator instead of the last
 element

---
 clpoly/charset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index 79c986a..7adb2a6 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -248,7 +248,7 @@ namespace clpoly{
                     auto q=pquo(T[n-1],regularsubreschain[i],x);
                     if(degree(q,x)>0)
                     {
-                        g.erase(g.end());
+                        g.pop_back();
                         g.push_back(q);
                         W=wrsd(g,f);
                         G.insert(G.end(),W.second.begin(),W.second.end());
-- 
2.43.0


From 21849c7afa5e2309fd898cd79525bd0837ce3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:56 +0000
Subject: [PATCH 32/43] fix: uspensky(G) missed the root at zero

---
 clpoly/realroot.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 538fd7f..00bee4c 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -148,6 +148,8 @@ namespace clpoly{
         l.reserve(l1.size()+l2.size());
         for (auto i=l1.rbegin();i!=l1.rend();++i)
             l.push_back({-i->second,-i->first});
+        if (!assign<QQ,ZZ,QQ>(G,0))
+            l.push_back({0,0});
         for (auto &i:l2)
             l.push_back(i);
         
-- 
2.43.0


From 8ba19fb621c6faac35c0161fd012db7e1625ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 33/43] fix: uroot comparison answered wrongly when one root is
 the midpoint of the common interval

---
 clpoly/realroot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/realroot.cc b/clpoly/realroot.cc
index 00bee4c..104bc7c 100644
--- a/clpoly/realroot.cc
+++ b/clpoly/realroot.cc
@@ -694,7 +694,7 @@ namespace clpoly{
             _uroot_check(r1,(r1->left()+r1->right())/2);
             _uroot_check(r2,(r2->left()+r2->right())/2);
         }
-        if (r1->left()<=r2->left())
+        if (r1->left()<r2->left() || r1->right()<r2->right())
             return status;
         return -status;
     }
-- 
2.43.0


From 746efdc19e930361055bae67ff68db2785d458ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 34/43] fix: graph::add_node registered a moved-from node
 (broken for nodes such as std::string)

---
 clpoly/associatedgraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 04ca071..166d208 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -64,8 +64,8 @@ namespace clpoly{
                 auto search=this->__mnode.find(c);
                 if (search==this->__mnode.end())
                 {
+                    this->__mnode[c]=this->__nodes.size();
                     this->__nodes.push_back(std::move(c));
-                    this->__mnode[c]=this->__nodes.size()-1;
                     this->__adjacency_list.push_back({});
                 }
             }
-- 
2.43.0


From 489907be1c68b97aac3ee2f1123ef2e3e89806d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 35/43] fix: connected_branch lost isolated vertices

---
 clpoly/associatedgraph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.cc b/clpoly/associatedgraph.cc
index 317ba33..16b92d0 100644
--- a/clpoly/associatedgraph.cc
+++ b/clpoly/associatedgraph.cc
@@ -164,7 +164,8 @@ namespace clpoly{
         for (uint64_t i=0;i<g.size();++i)
             if (l2[i])
             {
-                l1.push_back({});
+                l1.push_back({i});
+                l2[i]=false;
                 _connected_branch_(i,l1.size()-1,g,l1,l2);
             }
         return l1;
-- 
2.43.0


From aa624a95277bc8c889850040bfa388135026200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 36/43] fix: graph_diff_score ignored nodes only in the second
 graph and divided 0 by 0 for edgeless graphs

---
 clpoly/associatedgraph.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 166d208..676fe68 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -241,7 +241,7 @@ namespace clpoly{
         std::set<node_type> nodes;
         for (auto &i:g1.nodes())
             nodes.insert(i);
-        for (auto &j:g1.nodes())
+        for (auto &j:g2.nodes())
             nodes.insert(j);
         std::set<node_type> neighbor;
         double union_=0;
@@ -264,6 +264,8 @@ namespace clpoly{
             union_+=neighbor.size();
         }
         // std::cout<<cross<<" "<<union_<<std::endl;
+        if (union_==0)
+            return 0;
         return 1-cross/union_;
     }
 
-- 
2.43.0


From ba71ff6193a6a57f52dc2d31a0a1dbacf2f85ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 37/43] fix: __polynomial_m_d wrote out of bounds for a
 constant polynomial

---
 clpoly/associatedgraph.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 676fe68..093e400 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -412,7 +412,8 @@ namespace clpoly{
                 if (i->second>d)
                     d= i->second;
             }
-            ++md[m];
+            if (m<md.size())
+                ++md[m];
 
         }
         uint64_t m=0;
-- 
2.43.0


From 5102615ac9a26c856d517018c43bf9e7f40255ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 38/43] fix: new_variable() could take a name already
 registered by the user

---
 clpoly/variable.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clpoly/variable.hh b/clpoly/variable.hh
index 56cf444..68df50e 100644
--- a/clpoly/variable.hh
+++ b/clpoly/variable.hh
@@ -127,6 +127,8 @@ namespace clpoly{
         if (variable::free_serial.empty())
         {
             std::string variable_name="#var_"+ std::to_string(variable::variables.size());
+            while (variable::name_map.find(variable_name)!=variable::name_map.end())
+                variable_name+="_";
             variable::name_map[variable_name]=variable::variables.size();
             variable::variables.push_back(variable_name);
             return variable::variables.size()-1;
@@ -135,6 +137,8 @@ namespace clpoly{
         {
             std::size_t s=variable::free_serial.back();
             std::string variable_name="#var_"+ std::to_string(s);
+            while (variable::name_map.find(variable_name)!=variable::name_map.end())
+                variable_name+="_";
             variable::free_serial.pop_back();
             variable::name_map[variable_name]=s;
             variable::variables[s]=variable_name;
-- 
2.43.0


From 5daab27a21ceb61c0c6476b437eb5f6e4aa3f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 39/43] fix: random_polynomial does not terminate for the
 coefficient range {0,0}

---
 clpoly/random.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index e6fa6b1..75184eb 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -138,6 +138,7 @@ namespace clpoly{
 
         if (len > total) len = total;
         if (len == 0) return polynomial_<Tc>();
+        if (coeff.first == 0 && coeff.second == 0) return polynomial_<Tc>();
 
         std::random_device rd;
         std::mt19937 gen(rd());
-- 
2.43.0


From 3333ad4b91df8bf70c1aa2f3f6bc1360a4a100ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 40/43] fix: random_polynomial writes out of bounds when no
 variable is given

---
 clpoly/random.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index 75184eb..c711347 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -82,7 +82,8 @@ namespace clpoly{
                     index -= cnt;
                 }
             }
-            exp[n_vars - 1] = static_cast<int64_t>(rem);
+            if (n_vars > 0)
+                exp[n_vars - 1] = static_cast<int64_t>(rem);
             return exp;
         }
     } // namespace detail
@@ -132,6 +133,7 @@ namespace clpoly{
     {
         if (coeff.first > coeff.second) std::swap(coeff.first,coeff.second);
         uint64_t n = v.size();
+        if (n == 0) deg = 0;    // only the constant monomial
         uint64_t total = detail::monomial_count_upto(n, deg);
         uint64_t hi    = detail::monomial_count_exact(n, deg); // degree == deg
         uint64_t lo    = total - hi;                           // degree <  deg
@@ -205,6 +207,7 @@ namespace clpoly{
         std::random_device rd; 
         std::mt19937 gen(rd());
         auto size=v.size();
+        if (size==0) deg=0;
         std::bernoulli_distribution mp(p);
         std::uniform_int_distribution<> dis(down, up);
         std::vector<std::pair<variable,int64_t>>  m;
-- 
2.43.0


From 9aab3b31598e1c21c90ccbfd0645b9174ddfbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 41/43] fix: random_polynomial over large monomial spaces:
 binomial overflow and index narrowing

---
 clpoly/random.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index c711347..2c37d75 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -21,14 +21,18 @@ namespace clpoly{
 
     // ---- combinatorial helpers for monomial unranking ----
     namespace detail{
-        // C(n, k)
+        // C(n, k), or UINT64_MAX when it does not fit
         inline uint64_t binomial(uint64_t n, uint64_t k) {
             if (k > n) return 0;
             if (k == 0 || k == n) return 1;
             if (k > n - k) k = n - k;
             uint64_t r = 1;
             for (uint64_t i = 0; i < k; ++i)
-                r = r * (n - i) / (i + 1);
+            {
+                unsigned __int128 t = (unsigned __int128)r * (n - i) / (i + 1);
+                if (t > UINT64_MAX) return UINT64_MAX;
+                r = static_cast<uint64_t>(t);
+            }
             return r;
         }
 
@@ -101,7 +105,7 @@ namespace clpoly{
         std::random_device rd; 
         std::mt19937 gen(rd());
         size_t tmp=no_repeat?m-n:m-1;
-        std::uniform_int_distribution<> dis(0, tmp);
+        std::uniform_int_distribution<size_t> dis(0, tmp);
         for (size_t i=0;i!=n;++i)
         {
             v.push_back(dis(gen));
-- 
2.43.0


From d41ee089288339008798caffbf529f5754799919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 42/43] fix: RandomSample only ever selects the first n
 elements of the list

---
 clpoly/random.hh | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/clpoly/random.hh b/clpoly/random.hh
index 2c37d75..31d041f 100644
--- a/clpoly/random.hh
+++ b/clpoly/random.hh
@@ -281,14 +281,9 @@ namespace clpoly{
             bl.push_back(true);
         for (uint64_t i=std::min<uint64_t>(n,size);i>0;--i)
         {
-            if (i==1)
-            {
-                select = 1;
-            }
-            else{
-                std::uniform_int_distribution<uint64_t> dis(1, i);
-                select=dis(gen);
-            }
+            // choose among all elements not selected yet
+            std::uniform_int_distribution<uint64_t> dis(1, size-lout.size());
+            select=dis(gen);
             for (uint64_t j=0;j<size;++j)
             {
                 if (bl[j])
-- 
2.43.0


From 706a135478e62799a42f5d8d9d196593b52f5a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 43/43] fix: a zero Zp accumulator takes the prime of its
 operands

addmul/submul accepted only accumulators of prime 0 or of the operands' prime.
After Zp::set_prime(q), default-constructed accumulators carry q, so products and
everything built on them (gcd, factorization over the integers, which work modulo
other primes) asserted or, with assertions off, reduced modulo the wrong prime.
---
 clpoly/number.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clpoly/number.hh b/clpoly/number.hh
index 825b0f1..59b951a 100644
--- a/clpoly/number.hh
+++ b/clpoly/number.hh
@@ -308,17 +308,19 @@ namespace clpoly{
     template<>
     inline void addmul(Zp& op, const Zp& op1, const Zp& op2)
     {
-        assert((op.prime() == op1.prime() || op.prime() == 0)
+        // op 为零时可能是默认构造的累加器，其素数为 0 或 set_prime 设置的当前素数
+        assert((op.prime() == op1.prime() || op.number() == 0)
                && op1.prime() == op2.prime() && op1.prime());
-        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
+        if (op.prime() != op1.prime()) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
         op += op1 * op2;
     }
     template<>
     inline void submul(Zp& op, const Zp& op1, const Zp& op2)
     {
-        assert((op.prime() == op1.prime() || op.prime() == 0)
+        // op 为零时可能是默认构造的累加器，其素数为 0 或 set_prime 设置的当前素数
+        assert((op.prime() == op1.prime() || op.number() == 0)
                && op1.prime() == op2.prime() && op1.prime());
-        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
+        if (op.prime() != op1.prime()) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv
         op -= op1 * op2;
     }
     inline Zp pow(const Zp & z,int64_t i)
-- 
2.43.0

