From 78713e53b9aa8b5d2818af1b64ee67562fd96d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 01/96] fix: x*x**n was simplified to x**(n+1)*x**n (missing
 else in Mul::simplify)

---
 symbolics/functions/Mul.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..fc3da70 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -219,6 +219,7 @@ BasicPtr Mul::simplify()
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
               lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
-- 
2.43.0


From fdabea2be1f95c94fee0dbb60ab8d5efec10bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 02/96] fix: symbolics.Equal built a Less expression

---
 symbolics/wrapper/PySymbolics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/PySymbolics.cpp b/symbolics/wrapper/PySymbolics.cpp
index 97fa665..6255ceb 100644
--- a/symbolics/wrapper/PySymbolics.cpp
+++ b/symbolics/wrapper/PySymbolics.cpp
@@ -152,7 +152,7 @@ PyMODINIT_FUNC PyInit_symbolics(void)
     if (!registerObject( &CGreaterObjectType, "Greater", m))
         return NULL;
     // CEqual
-    if (!registerObject( &CLessObjectType, "Equal", m))
+    if (!registerObject( &CEqualObjectType, "Equal", m))
         return NULL;
     // CGraph
     if (!registerObject( &CGraphObjectType, "CGraph", m))
-- 
2.43.0


From b0538599343cf7cfcb40c9fbf472e72b5e991bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 03/96] fix: simplify() to a number turned the object into a
 corrupt Python int/float

---
 symbolics/wrapper/PyFactory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symbolics/wrapper/PyFactory.cpp b/symbolics/wrapper/PyFactory.cpp
index 0a8de96..6cfe8a2 100644
--- a/symbolics/wrapper/PyFactory.cpp
+++ b/symbolics/wrapper/PyFactory.cpp
@@ -66,11 +66,10 @@ PyTypeObject* PyFactory::ObjectType( BasicPtr &b )
   case Type_Symbol:
 		return &CSymbolObjectType;
 		break;
+  // the object is a CBasicObject, it must never be relabelled as a Python int or float
   case Type_Int:
-    return &PyLong_Type;
-  	break;
   case Type_Real:
-    return &PyFloat_Type;
+    return &CNumberObjectType;
   	break;
 	case Type_Matrix:
 		return &CMatrixObjectType;
-- 
2.43.0


From a0680945d899ab62ce09e4759167f044b6fb664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 04/96] fix: Add::simplify multiplied or dropped matrix
 summands

---
 symbolics/functions/Add.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..3b5024c 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -247,7 +247,7 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
+      bool hasMatZero = false;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
@@ -283,6 +283,7 @@ BasicPtr Add::simplify()
             Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
             for (size_t i=0; i<c->getNumEl(); ++i)
               c->set(i,c->get(i)+s);
+            addArg(BasicPtr(c));
           }
           else
             addArg(matrixes[0]);
@@ -293,7 +294,7 @@ BasicPtr Add::simplify()
           for (size_t i=1; i<matrixes.size(); ++i)
           {
             const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
+            *mat += (*m); 
           }
           if (scalars.size() > 0)
           {
-- 
2.43.0


From 7c2e4f76fa7a4e7091d090da9308871d081b55fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 05/96] fix: scalar() of a product that is already scalar was
 printed with two subscripts

---
 symbolics/functions/Scalar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index 9fc8709..edf6e8d 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -116,6 +116,9 @@ BasicPtr Scalar::New(BasicPtr const& arg)
             return Neg::New(New(neg->getArg()));
         }
     }
+    // already a scalar, nothing to do
+    if (arg->is_Scalar())
+        return arg;
     return BasicPtr(new Scalar(arg));
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 2a8aef7a073117969be3979b68c1756b6dc3fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 06/96] fix: the derivative of an identity matrix is zero

---
 symbolics/functions/Der.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Der.cpp b/symbolics/functions/Der.cpp
index 9a087ba..8c75ab5 100644
--- a/symbolics/functions/Der.cpp
+++ b/symbolics/functions/Der.cpp
@@ -56,7 +56,7 @@ BasicPtr Der::simplify()
   {
   case Type_Zero:
   case Type_Eye:
-        return getArg();
+        return Zero::getZero(getArg()->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
@@ -81,7 +81,7 @@ BasicPtr Der::New( BasicPtr const& arg)
   {
   case Type_Zero:
   case Type_Eye:
-        return arg;
+        return Zero::getZero(arg->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
-- 
2.43.0


From a1ea7a501c7cb3502080658de0ecae249d810b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 07/96] fix: a scalar product was taken apart when it was
 multiplied by a matrix

---
 symbolics/functions/Mul.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index fc3da70..caa126e 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -18,6 +18,24 @@ Mul::Mul( BasicPtr const& arg1, BasicPtr const& arg2 ): NaryOp(Type_Mul, arg1, a
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// A product that is scalar, but contains matrices (e.g. transpose(v)*v), must be
+// kept together: its factors are not compatible with those of an outer product.
+static bool canBeMerged( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    if (arg->getType() != Type_Mul)
+        return false;
+    if (!arg->is_Scalar())
+        return true;
+    for (size_t i=0; i<arg->getArgsSize(); ++i)
+        if (!arg->getArg(i)->is_Scalar())
+            return false;
+    return true;
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 Mul::Mul( BasicPtrVec const& args ): NaryOp(Type_Mul, args)
 /*****************************************************************************/
@@ -73,7 +91,7 @@ BasicPtr Mul::simplify()
             addArg(Zero::getZero(m_shape));
             return getArg(0);
         }
-        else if (getArg(i)->getType() == Type_Mul)
+        else if (canBeMerged(getArg(i)))
         {
             const Mul *a = Util::getAsConstPtr<Mul>(getArg(i));
             size_t argssize = a->getArgsSize();
@@ -91,7 +109,7 @@ BasicPtr Mul::simplify()
             const Neg *n = Util::getAsConstPtr<Neg>(getArg(i));
             BasicPtr narg = n->getArg();
             negate_me = !negate_me;
-            if (narg->getType() == Type_Mul)
+            if (canBeMerged(narg))
             {
                 const Mul *a = Util::getAsConstPtr<Mul>(narg);
                 size_t argssize = a->getArgsSize();
@@ -449,7 +467,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             return BasicPtr(c);
         }
     }
-    if (lhs->getType() == Type_Mul)
+    if (canBeMerged(lhs))
     {
         BasicPtrVec mulargs;
         const Mul *a = Util::getAsConstPtr<Mul>(lhs);
@@ -457,7 +475,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         for (size_t j=0; j<argssize; ++j)
           mulargs.push_back(a->getArg(j));
 
-        if (rhs->getType() == Type_Mul)
+        if (canBeMerged(rhs))
         {
           const Mul *b = Util::getAsConstPtr<Mul>(rhs);
           size_t argssize = b->getArgsSize();
@@ -468,7 +486,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
             mulargs.push_back(rhs);
         return BasicPtr(new Mul(mulargs));
     }
-    if (rhs->getType() == Type_Mul)
+    if (canBeMerged(rhs))
     {
         BasicPtrVec mulargs;
         mulargs.push_back(lhs);
-- 
2.43.0


From 14415dc188aabb4150223244086957540d7cd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 08/96] fix: Transpose::simplify returned a zero matrix with
 the untransposed shape

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..57c487c 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero( getArg()->getShape().transpose() );
+    case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From e55615d4ead73d0edbbf2605c756e5911855db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 09/96] fix: the derivative of outer(a,b) ignored the product
 rule and lost its shape

---
 symbolics/functions/Outer.cpp       | 34 +++++++++++++++++++++++++----
 symbolics/functions/include/Outer.h |  4 ++--
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..a9dcab1 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -3,7 +3,9 @@
 #include "Neg.h"
 #include "Util.h"
 #include "Mul.h"
+#include "Add.h"
 #include "Operators.h"
+#include <algorithm>
 
 using namespace Symbolics;
 
@@ -108,9 +110,12 @@ BasicPtr Outer::simplify()
 BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
-    // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    // if zero, return zero (of the same shape as the result)
+    if (Util::is_Zero(arg1) || Util::is_Zero(arg2))
+    {
+        const size_t n = std::max( arg1->getShape().getNumEl(), arg2->getShape().getNumEl() );
+        return Zero::getZero( Shape(n,n) );
+    }
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
@@ -123,4 +128,25 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 
     return BasicPtr(new Outer(arg1, arg2));
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der()
+/*****************************************************************************/
+{
+    // product rule
+    BasicPtr derarg1 = getArg1()->der();
+    BasicPtr derarg2 = getArg2()->der();
+    return Add::New(New(derarg1, getArg2()), New(getArg1(), derarg2));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Outer::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    BasicPtr derarg1 = getArg1()->der(symbol);
+    BasicPtr derarg2 = getArg2()->der(symbol);
+    return Add::New(New(derarg1, getArg2()), New(getArg1(), derarg2));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..f0bf05f 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -25,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
 	protected:
 		void validate();
-- 
2.43.0


From 3859a45187e34f966f2d2d0d0d15e3324daba7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 10/96] fix: the derivative of inv(A) recursed without end

---
 symbolics/functions/Inverse.cpp       | 22 +++++++++++++++++++++-
 symbolics/functions/include/Inverse.h |  4 ++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..72a8212 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -2,6 +2,7 @@
 #include "Matrix.h"
 #include "Util.h"
 #include "Neg.h"
+#include "Mul.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -116,4 +117,23 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     }
     return BasicPtr( new Inverse(arg) );
 }
-/*****************************************************************************/
\ No newline at end of file
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der()
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    BasicPtr inv(this);
+    return Neg::New(Mul::New(Mul::New(inv, getArg()->der()), inv));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    BasicPtr inv(this);
+    return Neg::New(Mul::New(Mul::New(inv, getArg()->der(symbol)), inv));
+}
+/*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..5310ad6 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -26,8 +26,8 @@ namespace Symbolics
 		    static BasicPtr New( BasicPtr const& arg );
 
         // derivative
-        inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der();
+        BasicPtr der(BasicPtr const& symbol);
 
     };
 
-- 
2.43.0


From e9581f11303a79f5d75d95249db0ca2ae0217e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 11/96] fix: the derivative of atan2(y,x) had its arguments
 swapped

---
 symbolics/functions/Atan2.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..8f40a81 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -243,9 +243,12 @@ BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (x*der(y) - y*der(x)) / (x^2+y^2)
+  BasicPtr y = getArg1();
+  BasicPtr x = getArg2();
+  BasicPtr num = Add::New(Mul::New(x,y->der()),Neg::New(Mul::New(y,x->der())));
+  BasicPtr den = Add::New(Pow::New(x,Int::New(2)),Pow::New(y,Int::New(2)));
+  return Util::div(num,den);
 }
 /*****************************************************************************/
 
@@ -253,8 +256,11 @@ BasicPtr Atan2::der()
 BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
-  return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
+  // der(atan2(y,x)) = (x*der(y) - y*der(x)) / (x^2+y^2)
+  BasicPtr y = getArg1();
+  BasicPtr x = getArg2();
+  BasicPtr num = Add::New(Mul::New(x,y->der(symbol)),Neg::New(Mul::New(y,x->der(symbol))));
+  BasicPtr den = Add::New(Pow::New(x,Int::New(2)),Pow::New(y,Int::New(2)));
+  return Util::div(num,den);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 1bdd4c509a11198b2f4237b3768a11d50596a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 12/96] fix: the derivative of sign(x) was sign(der(x)) or
 unresolved instead of zero

---
 symbolics/functions/Sign.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..cc6a419 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -149,7 +149,8 @@ BasicPtr Sign::New( BasicPtr const& arg)
 inline BasicPtr Sign::der()
 /*****************************************************************************/
 {
-  return BasicPtr(new Der(BasicPtr(this)));
+  // piecewise constant
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
 
@@ -157,6 +158,6 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  return Zero::getZero(m_shape);
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From 68fbb311d95b80a84029b5db00235dcc65d6f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 13/96] fix: Mul::simplify dropped vectors of ones as if they
 were identities

---
 symbolics/functions/Mul.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index caa126e..a620a47 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -213,11 +213,11 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        else if (Util::is_One(lastarg) && lastarg->is_Matrix() && (!dst[i]->is_Scalar()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (Util::is_One(dst[i]) && dst[i]->is_Matrix() && (!lastarg->is_Scalar()))
         {
           continue;
         }
-- 
2.43.0


From 4a6aaf64651b4300c1a3dc0e06c0b8aa245fd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 14/96] fix: the derivative of a matrix power treated its
 factors as commuting

---
 symbolics/functions/Pow.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..db4e57f 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -382,10 +382,30 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+static BasicPtr derMatrixPow( BasicPtr const& base, BasicPtr const& derbase, int n )
+/*****************************************************************************/
+{
+    // the factors of a matrix power do not commute with the derivative:
+    // der(A^n) = der(A)*A^(n-1) + A*der(A^(n-1)),  der(A^-1) = -A^-1*der(A)*A^-1
+    if (n == 0) return Zero::getZero(base->getShape());
+    if (n == 1) return derbase;
+    const int sgn = (n > 0) ? 1 : -1;
+    BasicPtr factor = (n > 0) ? base : Pow::New(base, Int::New(-1));
+    BasicPtr derfactor = (n > 0) ? derbase : Neg::New(Mul::New(Mul::New(factor, derbase), factor));
+    if (n == -1) return derfactor;
+    return Add::New( Mul::New(derfactor, Pow::New(base, Int::New(n-sgn))),
+                     Mul::New(factor, derMatrixPow(base, derbase, n-sgn)) );
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 inline BasicPtr Pow::der()
 /*****************************************************************************/
 {
+  int n = 0;
+  if (is_Matrix() && Util::is_Int(getExponent(),n))
+    return derMatrixPow(getBase(), getBase()->der(), n);
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
@@ -395,6 +415,9 @@ inline BasicPtr Pow::der()
 inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
+  int n = 0;
+  if (is_Matrix() && Util::is_Int(getExponent(),n))
+    return derMatrixPow(getBase(), getBase()->der(symbol), n);
   // pow(x,y) = der(x)*y*pow(x,y-1)
   return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
 }
-- 
2.43.0


From 85c62df529d67699a5889c8369553105b2bb04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 15/96] fix: sensor and graphics functions read the wrong part
 of the state vector if they do not use every state

---
 symbolics/writer/CSharpWriter.cpp  | 4 ++--
 symbolics/writer/CWriter.cpp       | 4 ++--
 symbolics/writer/FortranWriter.cpp | 4 ++--
 symbolics/writer/MatlabWriter.cpp  | 2 +-
 symbolics/writer/PythonWriter.cpp  | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 4ea02ac..9f9be8b 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -197,7 +197,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -321,7 +321,7 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..9cacdba 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -204,7 +204,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -296,7 +296,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..9ab1241 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -194,7 +194,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -327,7 +327,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..53fe340 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -338,7 +338,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..149f06f 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -225,7 +225,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -355,7 +355,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
-- 
2.43.0


From 69c2b2e4188de6192791ffb087f6c69ef73bf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 16/96] fix: constants in generated Python were indented
 differently from the rest of the function

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 149f06f..ca57938 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -182,7 +182,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -310,7 +310,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -440,7 +440,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From 0231a1fdaeab5f4c5a5b9942906340bd0b5f78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 17/96] fix: generated Python passed a bare value to vstack if
 the model has a single state

---
 symbolics/writer/PythonWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index ca57938..53682eb 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -203,7 +203,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    return " << "asarray(vstack((";
 	for (Graph::VariableVec::iterator it=states.begin();it!=states.end();++it)
 		f << (it==states.begin() ? "" : ", " ) << "der_" << m_p->print(*it);
-	f << "))).ravel()" << std::endl;
+	f << (states.size() == 1 ? "," : "") << "))).ravel()" << std::endl;
 
 	// close file
 	f.close();
-- 
2.43.0


From 0619aaa0e12c9813aef46c91c0bbd050567174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 18/96] fix: buildGraph refused a variable or sensor that is
 just an input, a state or time

---
 symbolics/graph/PastOptimisation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index 30987c0..e0990b7 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -184,8 +184,8 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
         if (elem == NULL)
         {
-          //return;
-          throw InternalError("Symbol: " + as->getName() + " has no equation!");
+          // time, inputs, controllers and states have no equation
+          return;
         }
         if (elem->kind != ALL)
           return;
@@ -214,8 +214,8 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           SymbolNodeElement *elem = static_cast<SymbolNodeElement*>(as->getUserData(ID_UD_NODE));
           if (elem == NULL)
           {
-            //return;
-            throw InternalError("Symbol: " + as->getName() + " has no equation!");
+            // time, inputs, controllers and states have no equation
+            return;
           }
           if (elem->kind != ALL)
             return;
-- 
2.43.0


From df8596ae253070c4383a88cc69a4b0be2ef529e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 19/96] fix: an expression with outer(), inv(), sign() or
 jacobian() could not be substituted into

---
 symbolics/Factory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..77dc024 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -60,6 +60,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(arg) );
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
@@ -94,6 +98,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Greater(arg1,arg2) );
     case Type_Equal:
         return BasicPtr( new Equal(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Unknown:
         throw InternalError("Unknown is not supported by Factory!");
     default:
@@ -162,6 +170,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         throw InternalError("Unknown is not supported by Factory!");
     case Type_Tan:
         return BasicPtr( new Tan(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     default:
         throw InternalError("Unknown Type: " + str(type) + "!");
     };
-- 
2.43.0


From a2a35983a232e2b05a092e7acade4797438ce104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 20/96] fix: an alias of one of several variables solved
 together became all of them

---
 symbolics/graph/PastOptimisation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index e0990b7..e5df737 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -190,6 +190,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
         if (elem->kind != ALL)
           return;
         NodePtr ap = elem->node;
+        // as is one of several variables that are solved together
+        if ((ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+          return;
         if(ap->get_Category() < PARAMETER)
         {
           // set b = a.exp
@@ -220,6 +223,9 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
           if (elem->kind != ALL)
             return;
           NodePtr ap = elem->node;
+          // as is one of several variables that are solved together
+          if ((ap->getRhsSize() != 1) || (ap->getLhs(0)->getType() != Type_Symbol))
+            return;
           if(ap->get_Category() < PARAMETER)
           {
             // set b = a.exp
-- 
2.43.0


From c22a8d119bbb92d350cce4c051a3ee5e6ac222cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 21/96] fix: ordering of real against integer numbers was
 reversed, so different terms were merged in sums

---
 symbolics/functions/Operators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..cd8c711 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -55,7 +55,7 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     {
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+        return (*cd) < (*ci);
     }
     // Vergleich Type
     if (lhs->getType() != rhs->getType())
-- 
2.43.0


From da9b0ff5142f242a1ae449dc16885f0a879f2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 22/96] fix: products with one scalar factor never compared
 equal, so terms of a sum with different factors were merged

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index a620a47..ddcd874 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -318,7 +318,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
-- 
2.43.0


From 3f770209c4802410cd3db608fd2bec0a7273731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 23/96] fix: C target returned scalar sensors by value, so
 their results were lost

---
 symbolics/writer/CWriter.cpp       | 36 +++++++++++++++++++++++++-----
 symbolics/writer/include/CWriter.h |  1 +
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 9cacdba..0821280 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -234,7 +234,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	f << "__declspec(dllexport) int "<< m_name <<"_visual(double * y"; 
 	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
-		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+		f << ", double " << outputName(*it) << m_p->dimension(*it); 
 	f << ")" << std::endl;  //evtl noch die statesize mit�bergeben, aber die kenn wir eigentlich auch
 	f << "{" << std::endl;
 
@@ -264,6 +264,10 @@ double CWriter::generateVisual(Graph::Graph& g)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << "= 0;" << std::endl;
+
 	f << "/* ordinary variables */" << std::endl;
     for (Graph::VariableVec::iterator it=variables.begin();it!=variables.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -273,6 +277,9 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	for (Graph::VariableVec::iterator it=sens_vis.begin();it!=sens_vis.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    " << outputName(*it) << " = " << m_p->print(*it) << ";" << std::endl;
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -331,9 +338,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 		f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
 	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
 		if (it==sensors.begin())
-			f << ", " << std::endl <<"                double " << m_p->print(*it) << m_p->dimension(*it);
+			f << ", " << std::endl <<"                double " << outputName(*it) << m_p->dimension(*it);
 		else
-			f << ", double " << m_p->print(*it) << m_p->dimension(*it); 
+			f << ", double " << outputName(*it) << m_p->dimension(*it); 
 	f << ")" << std::endl;  
 	f << "{" << std::endl;
 
@@ -363,6 +370,10 @@ double CWriter::generateSensors(Graph::Graph& g)
 		f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
 	f << std::endl;
 
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    double " << m_p->print(*it) << "= 0;" << std::endl;
+
 	f << "/* ordinary variables */" << std::endl;
     for (Graph::VariableVec::iterator it=variables.begin();it!=variables.end();++it)
         f << "    double " << m_p->print(*it) << m_p->dimension(*it) << "= " << m_p->print(g.getinitVal(*it)) << "; " << m_p->comment2(g,*it) <<  std::endl;
@@ -372,6 +383,9 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << writeEquations(a->getEquations(PARAMETER | CONSTANT | INPUT )) << std::endl;
     f << std::endl;
 
+	for (Graph::VariableVec::iterator it=sensors.begin();it!=sensors.end();++it)
+		if ((*it)->is_Scalar())
+			f << "    " << outputName(*it) << " = " << m_p->print(*it) << ";" << std::endl;
 	f << "	return 0;" << std::endl;
 	f << "}" << std::endl;
 	
@@ -385,6 +399,18 @@ double CWriter::generateSensors(Graph::Graph& g)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+std::string CWriter::outputName(const SymbolPtr &var) const
+/*****************************************************************************/
+{
+	// Skalare koennen nur ueber einen Zeiger zurueckgegeben werden
+	if (var->is_Scalar())
+		return "* " + m_p->print(var) + "_out";
+	return m_p->print(var);
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equations) const
 /*****************************************************************************/
@@ -554,7 +580,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sens_vis.begin(); it!=sens_vis.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
 	}
@@ -623,7 +649,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	for (Graph::VariableVec::iterator it=sensors.begin(); it!=sensors.end(); ++it)
 	{
 		if ((*it)->is_Scalar())
-			f << "," << std::endl << "                    c_double";
+			f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=1)";
 		else
 		//	f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=" << (*it)->getShape().getNrDimensions() << ")";
             f << "," << std::endl << "                    ctypeslib.ndpointer(ndim=2)";
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 29d2a92..4f5fafc 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -21,6 +21,7 @@ namespace Symbolics
 		CPrinter *m_p; // Der Hauptprinter dieser Writerklasse
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
+		std::string outputName(const SymbolPtr &var) const;
 		double generateFunctionmodule(int n);
 
     private:
-- 
2.43.0


From 0f99a7aa96c6257b010151230d17798dd22463bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 24/96] fix: C target solved every linear system with the
 dimension of the state

---
 symbolics/writer/CWriter.cpp       | 39 +++++++++++++++---------------
 symbolics/writer/FMUWriter.cpp     |  2 +-
 symbolics/writer/include/CWriter.h |  2 +-
 3 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0821280..538c566 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -62,7 +62,7 @@ double CWriter::generateTarget_Impl(Graph::Graph &g)
 	if (m_simulink_sfunction)
 	{
 		double t1 = generateAll(g, dim);
-		double t2 = generateFunctionmodule(dim);
+		double t2 = generateFunctionmodule();
 		return t1+t2;
 	}
 	else
@@ -72,7 +72,7 @@ double CWriter::generateTarget_Impl(Graph::Graph &g)
 		if (m_include_visual)
 			t2 = generateVisual(g);
 		double t3 = generateSensors(g);
-		double t4 = generateFunctionmodule(dim);
+		double t4 = generateFunctionmodule();
 		double t5 = 0.0;
 		if (m_pymbs_wrapper)
 			t5 = generatePymbsWrapper(g);
@@ -436,7 +436,9 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				s << "    {" << std::endl;
 				s << "        double solve_A[" << dim << "][" << dim << "] = " << m_p->print(solve->getArg1()) << ";" << std::endl;
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
-				s << "        legs(solve_A, solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ");" << std::endl;
+				s << "        int solve_indx[" << dim << "];" << std::endl;
+				s << "        double solve_c[" << dim << "];" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ", solve_indx, solve_c);" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
@@ -722,7 +724,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 
 
 /*****************************************************************************/
-double CWriter::generateFunctionmodule(int n)
+double CWriter::generateFunctionmodule()
 /*****************************************************************************/
 {
 	//get timestamp and catch variables from graph
@@ -750,42 +752,40 @@ double CWriter::generateFunctionmodule(int n)
 	f << std::endl;
 	f << "#include <stdio.h>" << std::endl;
 	f << "#include <math.h>" << std::endl;
-	f << "#define n " << n << std::endl;
 	f << std::endl;
-	f << "void elgs(double A[n][n], int *indx);" << std::endl;
+	f << "void elgs(int n, double *A, int *indx, double *c);" << std::endl;
 	f << std::endl;
-	f << "void legs (double A[n][n], double *b, double *x)" << std::endl;
+	f << "void legs (int n, double *A, double *b, double *x, int *indx, double *c)" << std::endl;
 	f << "/* Function to solve the equation A[n][n]*x[n] = b[n] with the" << std::endl;
 	f << "   partial-pivoting Gaussian elimination scheme." << std::endl;
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << "{" << std::endl;
-	f << "  int indx[n];" << std::endl;
 	f << "  int i, j;" << std::endl;
 	f << std::endl;
-	f << "  elgs (A,indx);" << std::endl;
+	f << "  elgs (n,A,indx,c);" << std::endl;
 	f << std::endl;
 	f << "  for(i = 0; i < n-1; ++i)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    for(j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]][i]*b[indx[i]];" << std::endl;
+	f << "      b[indx[j]] = b[indx[j]]-A[indx[j]*n+i]*b[indx[i]];" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
-	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]][n-1];" << std::endl;
+	f << "  x[n-1] = b[indx[n-1]]/A[indx[n-1]*n+n-1];" << std::endl;
 	f << "  for (i = n-2; i>=0; i--)" << std::endl;
 	f << "  {" << std::endl;
 	f << "    x[i] = b[indx[i]];" << std::endl;
 	f << "    for (j = i+1; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      x[i] = x[i]-A[indx[i]][j]*x[j];" << std::endl;
+	f << "      x[i] = x[i]-A[indx[i]*n+j]*x[j];" << std::endl;
 	f << "    }" << std::endl;
-	f << "    x[i] = x[i]/A[indx[i]][i];" << std::endl;
+	f << "    x[i] = x[i]/A[indx[i]*n+i];" << std::endl;
 	f << "  }" << std::endl;
 	f << std::endl;
 	f << "}" << std::endl;
 	f << std::endl;
-	f << "void elgs (double A[n][n], int *indx)" << std::endl;
+	f << "void elgs (int n, double *A, int *indx, double *c)" << std::endl;
 	f << std::endl;
 	f << "/* Function to perform the partial pivoting Gaussian elimination." << std::endl;
 	f << "   A[][] is the original matrix in the input and transformed" << std::endl;
@@ -794,7 +794,6 @@ double CWriter::generateFunctionmodule(int n)
 	f << "   Copyright (c) Tao Pang 2001. */" << std::endl;
 	f << std::endl;
 	f << "{" << std::endl;
-	f << "  double c[n];" << std::endl;
 	f << "  int i, j, l;" << std::endl;
 	f << std::endl;
 	f << "/* Initialize the index */" << std::endl;
@@ -811,7 +810,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double c1 = 0;" << std::endl;
 	f << "    for (j = 0; j < n; ++j)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      if (fabs(A[i][j]) > c1) c1 = fabs(A[i][j]);" << std::endl;
+	f << "      if (fabs(A[i*n+j]) > c1) c1 = fabs(A[i*n+j]);" << std::endl;
 	f << "    }" << std::endl;
 	f << "	c[i] = c1;" << std::endl;
 	f << "  }" << std::endl;
@@ -825,7 +824,7 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    double pi1 = 0;" << std::endl;
 	f << "    for (i = j; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pi = fabs(A[indx[i]][j])/c[indx[i]];" << std::endl;
+	f << "      double pi = fabs(A[indx[i]*n+j])/c[indx[i]];" << std::endl;
 	f << "      if (pi > pi1)" << std::endl;
 	f << "      {" << std::endl;
 	f << "        pi1 = pi;" << std::endl;
@@ -840,17 +839,17 @@ double CWriter::generateFunctionmodule(int n)
 	f << "    indx[k] = itmp;" << std::endl;
 	f << "    for (i = j+1; i < n; ++i)" << std::endl;
 	f << "    {" << std::endl;
-	f << "      double pj = A[indx[i]][j]/A[indx[j]][j];" << std::endl;
+	f << "      double pj = A[indx[i]*n+j]/A[indx[j]*n+j];" << std::endl;
 	f << std::endl;
 	f << "/* Record pivoting ratios below the diagonal */" << std::endl;
 	f << std::endl;
-	f << "      A[indx[i]][j] = pj;" << std::endl;
+	f << "      A[indx[i]*n+j] = pj;" << std::endl;
 	f << std::endl;
 	f << "/* Modify other elements accordingly */" << std::endl;
 	f << std::endl;
 	f << "      for (l = j+1; l < n; ++l)" << std::endl;
 	f << "      {" << std::endl;
-	f << "        A[indx[i]][l] = A[indx[i]][l]-pj*A[indx[j]][l];" << std::endl;
+	f << "        A[indx[i]*n+l] = A[indx[i]*n+l]-pj*A[indx[j]*n+l];" << std::endl;
 	f << "      }" << std::endl;
 	f << "    }" << std::endl;
 	f << "  }" << std::endl;
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 6e7d1b8..4046499 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -169,7 +169,7 @@ double FMUWriter::generateTarget_Impl(Graph::Graph &g)
 
 	int dim;
 	double t2 = generateModel(g, dim);
-	double t3 = generateFunctionmodule(dim);
+	double t3 = generateFunctionmodule();
 
 	//Template Dateien kopieren
 	if (filesystem::is_regular(m_path + "/fmuTemplate.h"))
diff --git a/symbolics/writer/include/CWriter.h b/symbolics/writer/include/CWriter.h
index 4f5fafc..b2831c8 100644
--- a/symbolics/writer/include/CWriter.h
+++ b/symbolics/writer/include/CWriter.h
@@ -22,7 +22,7 @@ namespace Symbolics
 
 		std::string writeEquations(std::vector<Graph::Assignment> const& equations) const;
 		std::string outputName(const SymbolPtr &var) const;
-		double generateFunctionmodule(int n);
+		double generateFunctionmodule();
 
     private:
 		bool m_pymbs_wrapper;
-- 
2.43.0


From 3246ba7048c8d6746326f0e3b33976e01143dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 25/96] fix: Fortran target took every unpacked result from the
 first temporary variable

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 9ab1241..d8d119d 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -468,7 +468,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
-- 
2.43.0


From d55f8133e33a755bd82fdd1bb34ef65b0b829d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 26/96] fix: constants were declared with an invalid attribute
 in Fortran

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index d8d119d..f202236 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -121,7 +121,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -260,7 +260,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -381,7 +381,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
-- 
2.43.0


From 509cd3fa50313e01e7f187bcddc03c13a0595ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 27/96] fix: C target wrote the solution of a linear system to
 a wrong place unless it was one vector

---
 symbolics/writer/CWriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 538c566..8619838 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -438,7 +438,10 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 				s << "        double solve_b[" << dim << "] = " << m_p->print(solve->getArg2()) << ";" << std::endl;
 				s << "        int solve_indx[" << dim << "];" << std::endl;
 				s << "        double solve_c[" << dim << "];" << std::endl;
-				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, " << m_p->print(it->lhs[i]->getArg(0)->getArg(0)) << ", solve_indx, solve_c);" << std::endl;
+				s << "        double solve_x[" << dim << "];" << std::endl;
+				s << "        legs(" << dim << ", &solve_A[0][0], solve_b, solve_x, solve_indx, solve_c);" << std::endl;
+				for (int j=0; j < dim; ++j)
+					s << "        " << m_p->print(it->lhs[i]->getArg(j)) << " = solve_x[" << j << "];" << std::endl;
 				s << "    }" << std::endl;
 			} else {
 				// ordinary equation
-- 
2.43.0


From 70877b57a3f340df1e39f590eaaa0602afadbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 28/96] fix: optimisation could invent a variable name that was
 already taken

---
 symbolics/graph/include/PreOptimisation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index bb3b64c..9c5237b 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -71,8 +71,9 @@ namespace Symbolics
                   else
                     name += str(n++);
                   // check for free name
-                  if (m_eqsys->hasSymbol(name))
-                    name += str(n++);
+                  const std::string basename = name;
+                  while (m_eqsys->hasSymbol(name))
+                    name = basename + str(n++);
                   SymbolPtr sp(new Symbol(name,ii->first->getShape()));
                   m_eqsys->addSymbol(sp);
                   ii->first->subs(sp);
-- 
2.43.0


From 88dfa7add048c94e55c6d2994ea65566f7c49022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 29/96] fix: Fortran products with a scalar between two
 matrices were not a matrix product

---
 symbolics/printer/FortranPrinter.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/symbolics/printer/FortranPrinter.cpp b/symbolics/printer/FortranPrinter.cpp
index 9506f56..a543a5b 100644
--- a/symbolics/printer/FortranPrinter.cpp
+++ b/symbolics/printer/FortranPrinter.cpp
@@ -46,18 +46,32 @@ std::string FortranPrinter::print_Mul( const Mul *mul )
 	std::string s="(", t="";
     size_t n = mul->getArgsSize();
     bool includes_matmul = false;
+
+    // Ein Skalar zwischen zwei Matrizen darf deren matmul nicht unterbrechen -> Skalare nach vorne
+    BasicPtrVec args;
+    for (size_t i=0; i<n; ++i)
+        if (mul->getArg(i)->is_Scalar())
+            args.push_back(mul->getArg(i));
+    const size_t scalars = args.size();
+    for (size_t i=0; i<n; ++i)
+        if (!mul->getArg(i)->is_Scalar())
+            args.push_back(mul->getArg(i));
+    if (n - scalars < 2) // nur eine Matrix, Reihenfolge beibehalten
+        for (size_t i=0; i<n; ++i)
+            args[i] = mul->getArg(i);
+
     for (size_t i=0; i<n-1; ++i)
     {
-		if (!mul->getArg(i)->is_Scalar() && !mul->getArg(i+1)->is_Scalar()) {
-			s += "matmul(" + print(mul->getArg(i)) + ",";
+		if (!args[i]->is_Scalar() && !args[i+1]->is_Scalar()) {
+			s += "matmul(" + print(args[i]) + ",";
 			t += ")";
 			includes_matmul = true;
 		} else {
-			s+= print(mul->getArg(i)) + t + "*";
+			s+= print(args[i]) + t + "*";
 			t="";
 		}
     }
-    s += print(mul->getArg(n-1)) + t + ")";
+    s += print(args[n-1]) + t + ")";
 	if (includes_matmul && mul->is_Scalar()) //TODO: was ist mit (1,1) Matrizen? 
 		s = "scalar" + s; //keine Klammern n�tig, diese sollten schon da sein
     return s;
-- 
2.43.0


From a9fd6af3f36ca7955593f84db3e987ad6a3eb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 30/96] fix: Modelica subscripts of anything but a symbol are
 reported like in the other targets

---
 symbolics/printer/ModelicaPrinter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/printer/ModelicaPrinter.cpp b/symbolics/printer/ModelicaPrinter.cpp
index 29d233a..4ccb4bd 100644
--- a/symbolics/printer/ModelicaPrinter.cpp
+++ b/symbolics/printer/ModelicaPrinter.cpp
@@ -101,6 +101,9 @@ std::string ModelicaPrinter::print_Element( const Element *e )
 /*****************************************************************************/
 {
 	if (e == NULL) throw InternalError("ModelicaPrinter: Element is NULL");
+    if (e->getArg(0)->getType() != Type_Symbol)
+        error("ModelicaPrinter: Element: Is only possible for Symbols, but here it is: " 
+                + print(e->getArg(0)) + "[" + str(e->getRow()+1) + "," + str(e->getCol()+1) + "]");
 	return print(e->getArg(0)) + "[" + str(e->getRow()+1) + "," + str(e->getCol()+1) + "]";
 }
 /*****************************************************************************/
-- 
2.43.0


From 622cf207181db071902c0c74407f3a1564caaa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 31/96] fix: names of optimisation variables no longer form
 names of functions (atan2, sinh)

---
 symbolics/graph/include/PreOptimisation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index 9c5237b..567add3 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -67,9 +67,9 @@ namespace Symbolics
                 {
                   std::string name = Basic_TypetoStr(type);
                   if (ii->first->getArg(0)->getType() == Type_Symbol)
-                    name += ii->first->getArg(0)->toString();
+                    name += "_" + ii->first->getArg(0)->toString();
                   else
-                    name += str(n++);
+                    name += "_" + str(n++);
                   // check for free name
                   const std::string basename = name;
                   while (m_eqsys->hasSymbol(name))
-- 
2.43.0


From 4b56a70796ad7e2a78471f980211877920068d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:00 +0000
Subject: [PATCH 32/96] fix: building one graph no longer rewrites expressions
 of other graphs

---
 symbolics/Basic.cpp                       | 13 ++++++
 symbolics/graph/Equation.cpp              | 11 +++++
 symbolics/graph/PreOptimisation.cpp       | 49 +++++++++++++++++++++++
 symbolics/graph/include/Equation.h        |  3 ++
 symbolics/graph/include/PreOptimisation.h | 32 ++++++++++++---
 symbolics/include/Basic.h                 |  2 +
 6 files changed, 104 insertions(+), 6 deletions(-)

diff --git a/symbolics/Basic.cpp b/symbolics/Basic.cpp
index 3f7e5de..4edc423 100644
--- a/symbolics/Basic.cpp
+++ b/symbolics/Basic.cpp
@@ -98,6 +98,19 @@ Basic::BasicSizeTMap Basic::getAtomsAmound()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+ void Basic::subsIn( ArgumentPtrSet const& parents, BasicPtr const& new_exp)
+/*****************************************************************************/
+{
+    for (ArgumentPtrSet::const_iterator ii = parents.begin();ii!=parents.end();++ii)
+    {
+      (*ii)->setArg(new_exp);
+      if ((*ii)->getParent().get() != NULL)
+        (*ii)->getParent()->changed();
+    }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  void Basic::changed()
 /*****************************************************************************/
diff --git a/symbolics/graph/Equation.cpp b/symbolics/graph/Equation.cpp
index c237dc0..55efdb5 100644
--- a/symbolics/graph/Equation.cpp
+++ b/symbolics/graph/Equation.cpp
@@ -102,6 +102,17 @@ void Equation::findSymbols()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+void Equation::getArguments(Basic::ArgumentPtrSet &args)
+/*****************************************************************************/
+{
+  for (size_t i=0;i<m_lhs.size();++i)
+    args.insert(&m_lhs[i]);
+  for (size_t i=0;i<m_rhs.size();++i)
+    args.insert(&m_rhs[i]);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void Equation::subs(ConstBasicPtr const& old_exp, BasicPtr const& new_exp)
 /*****************************************************************************/
diff --git a/symbolics/graph/PreOptimisation.cpp b/symbolics/graph/PreOptimisation.cpp
index 7953988..baeb986 100644
--- a/symbolics/graph/PreOptimisation.cpp
+++ b/symbolics/graph/PreOptimisation.cpp
@@ -41,6 +41,55 @@ void PreOptimisation::optimize()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+PreOptimisation::OwnScanner::OwnScanner(EquationSystemPtr eqsys)
+/*****************************************************************************/
+{
+  const EquationPtrSet eqns = eqsys->getEquations();
+  for (EquationPtrSet::const_iterator ii = eqns.begin(); ii != eqns.end(); ++ii)
+  {
+    (*ii)->getArguments(m_args);
+    for (size_t k=0; k<(*ii)->getLhsSize(); ++k)
+      (*ii)->getLhs(k)->scanExp(*this);
+    for (size_t k=0; k<(*ii)->getRhsSize(); ++k)
+      (*ii)->getRhs(k)->scanExp(*this);
+  }
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool PreOptimisation::OwnScanner::process_Arg(BasicPtr const &p, bool &stop)
+/*****************************************************************************/
+{
+  // already known expressions do not need to be scanned again
+  return m_exps.insert(p.get()).second;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+Basic::ArgumentPtrSet PreOptimisation::OwnScanner::getUses(BasicPtr const &p) const
+/*****************************************************************************/
+{
+  Basic::ArgumentPtrSet uses;
+  Basic::ArgumentPtrSet& parents = p->getParents();
+  for (Basic::ArgumentPtrSet::iterator ii = parents.begin(); ii != parents.end(); ++ii)
+  {
+    BasicPtr parent = (*ii)->getParent();
+    if ((parent.get() != NULL) ? owns(parent) : (m_args.find(*ii) != m_args.end()))
+      uses.insert(*ii);
+  }
+  return uses;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void PreOptimisation::OwnScanner::subs(BasicPtr const &p, BasicPtr const &new_exp) const
+/*****************************************************************************/
+{
+  p->subsIn(getUses(p),new_exp);
+}
+/*****************************************************************************/
+
 std::string sin_str="sin";
 std::string cos_str="cos";
 std::string atan_str="atan";
diff --git a/symbolics/graph/include/Equation.h b/symbolics/graph/include/Equation.h
index 605ab12..44e99a2 100644
--- a/symbolics/graph/include/Equation.h
+++ b/symbolics/graph/include/Equation.h
@@ -104,6 +104,9 @@ namespace Symbolics
 
       void iterateEquation(Basic::Iterator &v);
 
+      // collects the arguments that hold the expressions of this equation
+      void getArguments(Basic::ArgumentPtrSet &args);
+
     protected:
 
       // implizit
diff --git a/symbolics/graph/include/PreOptimisation.h b/symbolics/graph/include/PreOptimisation.h
index 567add3..6d28692 100644
--- a/symbolics/graph/include/PreOptimisation.h
+++ b/symbolics/graph/include/PreOptimisation.h
@@ -32,9 +32,27 @@ namespace Symbolics
 
         private:
 
+            // The expressions that belong to the equations of this system. The scopes of the functions also
+            // contain the expressions of other systems, which must be left alone.
+            class OwnScanner: public Basic::Scanner
+            {
+            public:
+              OwnScanner(EquationSystemPtr eqsys);
+              bool process_Arg(BasicPtr const &p, bool &stop);
+              inline bool owns(BasicPtr const &p) const { return m_exps.find(p.get()) != m_exps.end(); };
+              // uses of p in this system
+              Basic::ArgumentPtrSet getUses(BasicPtr const &p) const;
+              // replaces p in this system
+              void subs(BasicPtr const &p, BasicPtr const &new_exp) const;
+            private:
+              std::set<const Basic*> m_exps;
+              Basic::ArgumentPtrSet m_args;
+            };
+
             template< typename Ty >
             void optimizeUnaryFunctions(Basic_Type type )
             {
+              const OwnScanner own(m_eqsys);
               std::map<BasicPtr,size_t> repl;
               std::map<BasicPtr,size_t>::iterator ii;
               // 
@@ -45,18 +63,20 @@ namespace Symbolics
                 // cast
                 Ty *unary = List::getAsPtr<Ty>(list);
                 BasicPtr p(unary);
+                // next
+                list = list->getRigth();
+                if (!own.owns(p))
+                  continue;
                 ii = repl.find(p);
                 if (ii != repl.end())
                 {
-                  ii->second = ii->second + p->getParentsSize();
-                  p->subs(ii->first);
+                  ii->second = ii->second + own.getUses(p).size();
+                  own.subs(p,ii->first);
                 }
                 else
                 {
-                  repl[p] = p->getParentsSize();
+                  repl[p] = own.getUses(p).size();
                 }
-                // next
-                list = list->getRigth();
               }
 
               std::map<BasicPtr,size_t>::iterator re = repl.end();
@@ -76,7 +96,7 @@ namespace Symbolics
                     name = basename + str(n++);
                   SymbolPtr sp(new Symbol(name,ii->first->getShape()));
                   m_eqsys->addSymbol(sp);
-                  ii->first->subs(sp);
+                  own.subs(ii->first,sp);
                   m_eqsys->addEquation(sp,ii->first,false);
                 }
               }
diff --git a/symbolics/include/Basic.h b/symbolics/include/Basic.h
index 7cdbab1..0aa9f25 100644
--- a/symbolics/include/Basic.h
+++ b/symbolics/include/Basic.h
@@ -164,6 +164,8 @@ namespace Symbolics
 		    typedef std::set<ArgumentPtr> ArgumentPtrSet;
 		    inline ArgumentPtrSet& getParents() { return m_parents; };
         inline size_t getParentsSize() const { return m_parents.size(); };
+        // replaces the expression in some of its parents only
+        void subsIn( ArgumentPtrSet const& parents, BasicPtr const& new_exp);
 
         class LookFor: public Scanner
         {
-- 
2.43.0


From 4a519168c9efd882ec66a225f91072723bb2cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 33/96] fix: writers report files that could not be opened or
 written completely

---
 symbolics/writer/CSharpWriter.cpp   |  6 +++---
 symbolics/writer/CWriter.cpp        | 12 ++++++------
 symbolics/writer/FMUWriter.cpp      |  4 ++--
 symbolics/writer/FortranWriter.cpp  | 16 ++++++++--------
 symbolics/writer/MatlabWriter.cpp   | 12 ++++++------
 symbolics/writer/ModelicaWriter.cpp |  2 +-
 symbolics/writer/PythonWriter.cpp   |  6 +++---
 symbolics/writer/Writer.cpp         | 21 +++++++++++++++++++++
 symbolics/writer/include/Writer.h   | 12 ++++++++++++
 9 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 9f9be8b..f4424b3 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -86,7 +86,7 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_der_state.cs";
     f.open(filename.c_str());
 
@@ -213,7 +213,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_visual.cs";
     f.open(filename.c_str());
 
@@ -341,7 +341,7 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_sensors.cs";
     f.open(filename.c_str());
 
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 8619838..a6df6c2 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -106,7 +106,7 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_der_state.c";
     f.open(filename.c_str());
 
@@ -222,7 +222,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_visual.c";
     f.open(filename.c_str());
 
@@ -323,7 +323,7 @@ double CWriter::generateSensors(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_sensors.c";
     f.open(filename.c_str());
 
@@ -474,7 +474,7 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(state_inputs.begin(),state_inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_der_state_CWrapper.py";
     f.open(filename.c_str());
 
@@ -733,7 +733,7 @@ double CWriter::generateFunctionmodule()
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/functionmodule.c";
     f.open(filename.c_str());
 
@@ -871,7 +871,7 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + ".c"; 
     f.open(filename.c_str());
 
diff --git a/symbolics/writer/FMUWriter.cpp b/symbolics/writer/FMUWriter.cpp
index 4046499..38c9b31 100644
--- a/symbolics/writer/FMUWriter.cpp
+++ b/symbolics/writer/FMUWriter.cpp
@@ -219,7 +219,7 @@ double FMUWriter::generateXML(Graph::Graph& g)
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/modelDescription.xml"; 
     f.open(filename.c_str());
 
@@ -417,7 +417,7 @@ double FMUWriter::generateModel(Graph::Graph& g, int &dim)
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + ".c"; 
     f.open(filename.c_str());
 
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index f202236..3d05a16 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -80,7 +80,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(inputs.begin(),inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_der_state.f90";
     f.open(filename.c_str());
 
@@ -165,7 +165,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 		f << "    " << *it << std::endl;
 	f << std::endl;
 
-	f << fss.rdbuf();
+	f << fss.str();
 
 	f << "    yd = reshape((/";
 	for (Graph::VariableVec::iterator it=states.begin();it!=states.end();++it)
@@ -214,7 +214,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	// Sensors Vector sortieren: 
 	std::sort(sensors.begin(),sensors.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_sensors.f90";
     f.open(filename.c_str());
 
@@ -304,7 +304,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 		f << "    " << *it << std::endl;
 	f << std::endl;
 
-	f << fss.rdbuf();
+	f << fss.str();
 
 	f << "end subroutine" << std::endl;
 	f.close();
@@ -345,7 +345,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	// Visual_sensors Vector sortieren: 
 	std::sort(sens_vis.begin(),sens_vis.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_visual.f90";
     f.open(filename.c_str());
 
@@ -425,7 +425,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 		f << "    " << *it << std::endl;
 	f << std::endl;
 
-	f << fss.rdbuf();
+	f << fss.str();
 
 	f << "end subroutine" << std::endl;
 	f.close();
@@ -501,7 +501,7 @@ double FortranWriter::generatePymbsWrapper(Graph::Graph& g)
     // Inputs Vector sortieren: 
 	std::sort(der_state_inputs.begin(),der_state_inputs.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_der_state_F90Wrapper.py";
     f.open(filename.c_str());
 
@@ -635,7 +635,7 @@ double FortranWriter::generateFunctionmodule()
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/functionmodule.f90";
     f.open(filename.c_str());
 
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 53fe340..186b598 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -66,7 +66,7 @@ double MatlabWriter::generateBasicSim(Graph::Graph& g)
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_sim.m";
     f.open(filename.c_str());
 
@@ -165,7 +165,7 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
 	
-	std::ofstream f;
+	OutputFile f;
 	std::string filename= m_path + "/" + m_name + "_der_state.m";
 	f.open(filename.c_str());
 
@@ -225,7 +225,7 @@ double MatlabWriter::generateSymDerState(Graph::Graph& g)
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_der_state_symbolic.m";
     f.open(filename.c_str());
 
@@ -299,7 +299,7 @@ double MatlabWriter::generateInputs(Graph::Graph& g)
 	//get timestamp and catch variables from graph
 	double t1 = Util::getTime();
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_inputs.m";
     f.open(filename.c_str());
 	Graph::VariableVec inputs = g.getVariables(INPUT);
@@ -352,7 +352,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_sensors.m";
     f.open(filename.c_str());
 
@@ -432,7 +432,7 @@ double MatlabWriter::generateSymSensors(Graph::Graph& g)
 	// StateVariables Vector sortieren:
 	std::sort(states.begin(),states.end(), sortVariableVec);
 
-	std::ofstream f;
+	OutputFile f;
     std::string filename= m_path + "/" + m_name + "_sensors_symbolic.m";
     f.open(filename.c_str());
 
diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..7be366b 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -43,7 +43,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
 {
   ModelicaPrinter p;
   // open file
-  std::ofstream f;
+  OutputFile f;
   std::string filename= m_path + "/" + m_name + ".mo";
   f.open(filename.c_str());
 
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 53682eb..9eb1e8f 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -83,7 +83,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	// open file
-	std::ofstream f;
+	OutputFile f;
 	std::string filename= m_path + "/" + m_name + "_der_state.py";
 	f.open(filename.c_str());
 
@@ -242,7 +242,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	// open file
-	std::ofstream f;
+	OutputFile f;
 	std::string filename = m_path + "/" + m_name + "_visual.py";
 	f.open(filename.c_str());
 
@@ -372,7 +372,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	std::sort(states.begin(),states.end(), sortVariableVec);
 
 	// open file
-	std::ofstream f;
+	OutputFile f;
 	std::string filename = m_path + "/" + m_name + "_sensors.py";
 	f.open(filename.c_str());
 
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index bc212b5..da2835b 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -9,6 +9,27 @@
 
 using namespace Symbolics;
 
+/*****************************************************************************/
+void OutputFile::open(const char *filename)
+/*****************************************************************************/
+{
+    m_filename = filename;
+    std::ofstream::open(filename);
+    if (!is_open())
+        throw InternalError("Could not open '" + m_filename + "' for writing!");
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void OutputFile::close()
+/*****************************************************************************/
+{
+    std::ofstream::close();
+    if (fail())
+        throw InternalError("Could not write '" + m_filename + "' completely!");
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 Writer::Writer(bool makeScalar):m_scalar(makeScalar)
 /*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index 3766aaa..b73da74 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -3,11 +3,23 @@
 
 #include <string>
 #include <vector>
+#include <fstream>
 #include "Symbolics.h"
 #include "Graph.h"
 
 namespace Symbolics
 {
+    // File that is being written, reports whatever prevents it from being written completely
+    class OutputFile: public std::ofstream
+    {
+    public:
+        void open(const char *filename);
+        void close();
+    private:
+        std::string m_filename;
+    };
+/*****************************************************************************/
+
     class Writer
     {
     public:
-- 
2.43.0


From 40ffe93d9fb5efbb2361ad432cb0de35e3fbaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 34/96] fix: unknown target type is reported instead of calling
 an uninitialised writer

---
 symbolics/wrapper/CGraph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CGraph.cpp b/symbolics/wrapper/CGraph.cpp
index 3ded973..a59d5d4 100644
--- a/symbolics/wrapper/CGraph.cpp
+++ b/symbolics/wrapper/CGraph.cpp
@@ -549,7 +549,7 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		char *path = NULL;
 
 		double t;
-		Writer *writer;
+		Writer *writer = NULL;
 
 		// Argumente parsen
 		if (!PyArg_ParseTuple(args, "sss", &typeString, &name, &path))
@@ -580,6 +580,9 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		if(!strcmp(typeString, "fmu"))
 			writer = new FMUWriter(keywords);
 
+		if (writer == NULL)
+			throw InternalError(std::string("Unknown target '") + typeString + "'!");
+
 		// Code schreiben
 		t = writer->generateTarget(name, path, *(self->m_graph), true);
 		return PyFloat_FromDouble(t);
-- 
2.43.0


From 4c1075bc3c111a7c63f2d6e03438428c0bc95348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 35/96] fix: writing a scalar target (C, C#) left the model
 unusable for further targets

---
 symbolics/graph/Graph.cpp                  | 39 ++++++++++++++++++++++
 symbolics/graph/PastOptimisation.cpp       | 34 +++++++++++++++++--
 symbolics/graph/include/Graph.h            | 21 ++++++++++++
 symbolics/graph/include/PastOptimisation.h |  8 ++++-
 symbolics/writer/Writer.cpp                | 19 ++++++-----
 5 files changed, 108 insertions(+), 13 deletions(-)

diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index 5afc589..cf75889 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -85,6 +85,45 @@ void Symbolics::Graph::Graph::makeScalar()
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+Symbolics::Graph::ScalarGraph::ScalarGraph(Graph const& g): Graph(g), m_symbolnodes(*eqsys)
+/*****************************************************************************/
+{
+  // the nodes belong to the other graph
+  m_nodes.clear();
+  makeScalar();
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+Symbolics::Graph::ScalarGraph::~ScalarGraph()
+/*****************************************************************************/
+{
+  for (NodeVec::iterator ii=m_nodes.begin();ii!=m_nodes.end();++ii)
+    (*ii)->clear();
+  m_nodes.clear();
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+Symbolics::Graph::ScalarGraph::SymbolNodes::SymbolNodes(EquationSystem& eqsys)
+/*****************************************************************************/
+{
+  EquationSystem::StringSymbolMap& symbols = eqsys.getSymbols();
+  for (EquationSystem::StringSymbolMap::iterator ii=symbols.begin();ii!=symbols.end();++ii)
+    m_nodes[ii->second] = ii->second->getUserData(ID_UD_NODE);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+Symbolics::Graph::ScalarGraph::SymbolNodes::~SymbolNodes()
+/*****************************************************************************/
+{
+  for (std::map<SymbolPtr,void*>::iterator ii=m_nodes.begin();ii!=m_nodes.end();++ii)
+    ii->first->setUserData(ii->second,ID_UD_NODE);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Category_Type inc,
   Category_Type exclude)
diff --git a/symbolics/graph/PastOptimisation.cpp b/symbolics/graph/PastOptimisation.cpp
index e5df737..e5de3db 100644
--- a/symbolics/graph/PastOptimisation.cpp
+++ b/symbolics/graph/PastOptimisation.cpp
@@ -26,7 +26,7 @@ PastOptimisation::~PastOptimisation()
 void PastOptimisation::optimize()
 /*****************************************************************************/
 {
-  NodeOptimizer v(m_time);
+  NodeOptimizer v(m_time,m_eqsys);
 
   for (size_t i=0;i<m_nodes.size();++i)
   {
@@ -48,10 +48,13 @@ void PastOptimisation::optimize()
 
 
 /*****************************************************************************/
-PastOptimisation::NodeOptimizer::NodeOptimizer(BasicPtr const& T):
+PastOptimisation::NodeOptimizer::NodeOptimizer(BasicPtr const& T, EquationSystemPtr eqsys):
 time(T),removed(0),start(0)
 /*****************************************************************************/
 {
+  const EquationPtrSet eqns = eqsys->getEquations();
+  for (EquationPtrSet::const_iterator ii = eqns.begin(); ii != eqns.end(); ++ii)
+    (*ii)->getArguments(m_args);
 }
 /*****************************************************************************/
 
@@ -247,6 +250,25 @@ void PastOptimisation::NodeOptimizer::process_Node(NodePtr p)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool PastOptimisation::NodeOptimizer::is_Own(ArgumentPtr arg, std::map<Basic*,bool> &known) const
+/*****************************************************************************/
+{
+  BasicPtr parent = arg->getParent();
+  if (parent.get() == NULL)
+    return m_args.find(arg) != m_args.end();
+  std::map<Basic*,bool>::iterator ik = known.find(parent.get());
+  if (ik != known.end())
+    return ik->second;
+  bool own = false;
+  Basic::ArgumentPtrSet& parents = parent->getParents();
+  for (Basic::ArgumentPtrSet::iterator ii = parents.begin(); !own && (ii != parents.end()); ++ii)
+    own = is_Own(*ii,known);
+  known[parent.get()] = own;
+  return own;
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 void PastOptimisation::NodeOptimizer::subs_Node(NodePtr p,
   SymbolPtr const& symbol,
@@ -263,7 +285,13 @@ void PastOptimisation::NodeOptimizer::subs_Node(NodePtr p,
     (*ii)->removeParent(p);
   }
   BasicPtr bs(symbol);
-  bs->subs(exp);
+  std::map<Basic*,bool> known;
+  Basic::ArgumentPtrSet& uses = bs->getParents();
+  Basic::ArgumentPtrSet own;
+  for (Basic::ArgumentPtrSet::iterator ii=uses.begin();ii!=uses.end();++ii)
+    if (is_Own(*ii,known))
+      own.insert(*ii);
+  bs->subsIn(own,exp);
   p->clearChilds();
   p->subs(exp,bs);
   p->subs(p->getRhs(0),exp);
diff --git a/symbolics/graph/include/Graph.h b/symbolics/graph/include/Graph.h
index e1e873b..0529fbd 100644
--- a/symbolics/graph/include/Graph.h
+++ b/symbolics/graph/include/Graph.h
@@ -93,6 +93,27 @@ namespace Symbolics
         private:
             BasicPtr m_time;
          };
+/*****************************************************************************/
+        // scalar copy of a graph, the graph itself is left as it is.
+        // (the symbols are shared, so the graph must not be used as long as the copy exists)
+        class ScalarGraph: public Graph
+        {
+        public:
+            ScalarGraph(Graph const& g);
+            ~ScalarGraph();
+
+        protected:
+            // gives the symbols the nodes of the graph back
+            class SymbolNodes
+            {
+            public:
+                SymbolNodes(EquationSystem& eqsys);
+                ~SymbolNodes();
+
+            protected:
+                std::map<SymbolPtr,void*> m_nodes;
+            } m_symbolnodes;
+        };
 /*****************************************************************************/
     };
 };
diff --git a/symbolics/graph/include/PastOptimisation.h b/symbolics/graph/include/PastOptimisation.h
index e6961f5..c8c1467 100644
--- a/symbolics/graph/include/PastOptimisation.h
+++ b/symbolics/graph/include/PastOptimisation.h
@@ -35,7 +35,7 @@ namespace Symbolics
           class NodeOptimizer: public Node::Visitor, public Basic::Scanner
           {
           public:
-              NodeOptimizer(BasicPtr const& T);
+              NodeOptimizer(BasicPtr const& T, EquationSystemPtr eqsys);
               ~NodeOptimizer();
                 
               void process_Node(NodePtr p);
@@ -53,6 +53,12 @@ namespace Symbolics
               double start;
 
               void subs_Node(NodePtr p, SymbolPtr const& symbol, BasicPtr const& exp);
+
+              // arguments that hold the expressions of the equations
+              Basic::ArgumentPtrSet m_args;
+              // does arg belong to one of the equations? (symbols are also used by expressions
+              // outside of them and by copies of the system, which must be left alone)
+              bool is_Own(ArgumentPtr arg, std::map<Basic*,bool> &known) const;
           };
 
         private:
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index da2835b..2ccd712 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -50,21 +50,22 @@ Writer::~Writer()
 double Writer::generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize)
 /*****************************************************************************/
 {
-    // make scalar = 
-    if (m_scalar)
-    {
-        g.makeScalar();
-
-        // build equations
-        g.buildGraph(optimize);
-    }
-
     for (std::string::iterator it = path.begin(); it != path.end(); ++it) //Backslashs in slashs wandeln.
         if (*it=='\\') 
             *it='/';
     m_path = path;
 
     m_name = name;
+
+    if (m_scalar)
+    {
+        // write a scalar copy, the graph itself may be used for further targets
+        Graph::ScalarGraph scalar(g);
+
+        // build equations
+        scalar.buildGraph(optimize);
+        return generateTarget_Impl(scalar);
+    }
     // 
     return generateTarget_Impl(g);
 }
-- 
2.43.0


From 631bd72fdb1b88c0024b15c1c88cddb6092bb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 36/96] fix: bodies joined by a fixed joint got a wrong centre
 of gravity and inertia

---
 pymbs/input/transformation.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..90b71b6 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -658,12 +658,6 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
-
 
 def updateChildCS(new_Body, p_bif, R_bif):
     """
@@ -704,7 +698,7 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
+                body.p = transpose(child.R)*(-child.p)
                 body.R = transpose(child.R)
                 body.children.remove(child)
                 body.coordList.remove(child)
@@ -734,11 +728,22 @@ def applyFixedJoints(iBody, stage):
                 # Remove Child Body from List
                 del iBody.bodyDict[child.oldName]
 
+                # The inertial system does not care about additional bodies
+                if (parent is iBody):
+                    continue
+
+                # Properties of the Child, w.r.t. the frame of the Parent
+                child_cg = child.p + child.R*child.cg
+                child_inertia = child.R*child.inertia*transpose(child.R)
+
                 # Calculate new Properties of Combined Body
-                m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                m = parent.mass + child.mass
+                cg = (parent.mass*parent.cg + child.mass*child_cg) / m
+                # Inertia, w.r.t. the combined centre of gravity
+                d_parent = skew(parent.cg - cg)
+                d_child = skew(child_cg - cg)
+                inertia = parent.inertia + parent.mass*transpose(d_parent)*d_parent + \
+                          child_inertia + child.mass*transpose(d_child)*d_child
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From d85e65621bc16c78a00ea19151491d4fec152135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 37/96] fix: a velocity sensor whose result is zero crashed the
 generation

---
 pymbs/processing/sensors/acceleration_sensor.py | 2 +-
 pymbs/processing/sensors/velocity_sensor.py     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/sensors/acceleration_sensor.py b/pymbs/processing/sensors/acceleration_sensor.py
index 8bfe739..ac5ce13 100644
--- a/pymbs/processing/sensors/acceleration_sensor.py
+++ b/pymbs/processing/sensors/acceleration_sensor.py
@@ -28,4 +28,4 @@ class AccelerationSensor(Sensor):
         Returns Shape of Sensor Result
         '''
         
-        return (3,1)
\ No newline at end of file
+        return (3,)
\ No newline at end of file
diff --git a/pymbs/processing/sensors/velocity_sensor.py b/pymbs/processing/sensors/velocity_sensor.py
index beefcf1..2e8ce74 100644
--- a/pymbs/processing/sensors/velocity_sensor.py
+++ b/pymbs/processing/sensors/velocity_sensor.py
@@ -1,5 +1,6 @@
 from pymbs.processing.sensors.sensor import Sensor
 from pymbs.common.functions import transpose
+from pymbs.symbolics import zeros
 
 
 
@@ -18,7 +19,7 @@ class VelocitySensor(Sensor):
         # Calculate Vector Pointing From Parent to Child (w.r.t. Inertial Frame)
         v = transpose(self.ref.I_R)*(self.child.I_v - self.parent.I_v)
         if (v == 0):
-            v = pymbs.Symbolics.zeros(self.getShape())
+            v = zeros(self.getShape())
         
         # Add Result to the List of Equations
         self.writeResult(graph, v)
@@ -29,4 +30,4 @@ class VelocitySensor(Sensor):
         Returns Shape of Sensor Result
         '''
         
-        return (3,1)
\ No newline at end of file
+        return (3,)
\ No newline at end of file
-- 
2.43.0


From a8bf144c8ec103d0bb030d48184ecbb4c00a3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 38/96] fix: an even power under a root lost the sign of its
 base (sqrt(x**2) became x, sqrt(-x) became -sqrt(x))

---
 symbolics/functions/Pow.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index db4e57f..f3039cf 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -84,6 +84,18 @@ std::string Pow::toString() const
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+static bool needsAbs( BasicPtr const& inner, BasicPtr const& merged )
+/*****************************************************************************/
+{
+    // (x^2)^0.5 = |x|: an even power forgets the sign of its base
+    int i = 0;
+    if (!Util::is_Int(inner,i) || (i%2 != 0)) return false;
+    return !(Util::is_Int(merged,i) && (i%2 == 0));
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 BasicPtr Pow::simplify()
 /*****************************************************************************/
@@ -213,7 +225,10 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
-            setArg2(getArg2()*c->getExponent()->simplify());
+            BasicPtr exponent = (getArg2()*c->getExponent())->simplify();
+            if (needsAbs(c->getExponent(),exponent))
+                return New(Abs::New(c->getBase()),exponent)->simplify();
+            setArg2(exponent);
             setArg1(c->getBase());
             m_simplified = true;
             return BasicPtr(this);
@@ -232,8 +247,10 @@ BasicPtr Pow::simplify()
                 return BasicPtr(this);
             }
 
-            // swap neg and pow
-            return Neg::New(New(c->getArg(),getArg2()));
+            // swap neg and pow (odd exponents only)
+            if (Util::is_Int(getArg2(), iExp))
+                return Neg::New(New(c->getArg(),getArg2()));
+            break;
         }
     }
 
@@ -359,7 +376,10 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
-            return New(c->getBase(),Mul::New(arg2,c->getExponent()));
+            BasicPtr exponent = Mul::New(arg2,c->getExponent());
+            if (needsAbs(c->getExponent(),exponent))
+                return New(Abs::New(c->getBase()),exponent);
+            return New(c->getBase(),exponent);
         }
         // move neg to front in case of round number remove it
     case Type_Neg:
@@ -374,8 +394,10 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
                 return New(arg_1,arg2);
             }
 
-            // swap neg and pow
-            return Neg::New(New(arg_1,arg2));
+            // swap neg and pow (odd exponents only)
+            if (Util::is_Int(arg2, iExp))
+                return Neg::New(New(arg_1,arg2));
+            break;
         }
     }
     return BasicPtr(new Pow(arg1,arg2));
-- 
2.43.0


From 5a74db33073bf51a83000288f919435c84b56416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 39/96] fix: a negated one counted as one, so a factor of -(1)
 was dropped

---
 symbolics/functions/Util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 42341e4..8996784 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -189,7 +189,11 @@ bool Util::is_One( BasicPtr const& e)
     {
         const Basic *b = e.get();
         const Neg *c = dynamic_cast<const Neg*>(b);
-        return is_One(c->getArg());
+        BasicPtr arg = c->getArg();
+        if (arg->getType() == Type_Neg)
+            return is_One(Util::getAsConstPtr<Neg>(arg)->getArg());
+        // -(1) is not one
+        return ((arg->getType() == Type_Int) || (arg->getType() == Type_Real)) && (arg == Int::getMinusOne());
     }
     default:
         return false;
-- 
2.43.0


From 6fdc511545aab0f9b857eb4a22dbbbbf496672e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:23 +0000
Subject: [PATCH 40/96] fix: compound loads crashed the explicit formalism for
 systems with one degree of freedom

---
 pymbs/processing/generator_explicit.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 6b52d40..7158c7e 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -109,6 +109,21 @@ class Generator_Explicit(Generator):
                 childCS.I_a = jacobian(childCS.I_v, self.q)*self.qd + jacobian(childCS.I_v, self.qd)*self.qdd
 
 
+    def distribute(self, J, W):
+        '''
+        Calculates J'*W, which is a row vector if there is just one degree of freedom
+        '''
+
+        shape = W.shape()
+        if (len(J.shape()) > 1 or len(shape) < 2):
+            return transpose(J)*W
+
+        res = Matrix((1,shape[1]))
+        for k in range(shape[1]):
+            res[0,k] = J[0]*W[0,k] + J[1]*W[1,k] + J[2]*W[2,k]
+        return res
+
+
     def calcEquations(self, graph, inertial, bodies, joints, fels, loops, q, qd):
         '''
         Obtain Equations of Motion Using an Explicit Newton/Euler Algorithm
@@ -213,8 +228,8 @@ class Generator_Explicit(Generator):
                     Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                     Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                Wf += transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                Wt += transpose(J2[i:i+3,:])*Wt_temp
+                Wf += self.distribute(J1[i:i+3,:], Wf_temp) + self.distribute(J2[i:i+3,:], Wft_temp)
+                Wt += self.distribute(J2[i:i+3,:], Wt_temp)
 
             # Child
             Wf_temp = Matrix((3,3))
@@ -233,8 +248,8 @@ class Generator_Explicit(Generator):
                         Wft_temp = skew(cs.p - body.cg)*transpose(body.I_R)*Rref*fel.Wf
                         Wt_temp = transpose(body.I_R)*Rref*fel.Wt
 
-                    Wf -= transpose(J1[i:i+3,:])*Wf_temp + transpose(J2[i:i+3,:])*Wft_temp
-                    Wt -= transpose(J2[i:i+3,:])*Wt_temp
+                    Wf -= self.distribute(J1[i:i+3,:], Wf_temp) + self.distribute(J2[i:i+3,:], Wft_temp)
+                    Wt -= self.distribute(J2[i:i+3,:], Wt_temp)
 
             # Simplify Them
             print("Simplifying Load-Distribution Matrices")
-- 
2.43.0


From a4a624b565909886a3ed34d044cf8e7819a4934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 41/96] fix: angular velocity and acceleration sensors crashed
 the explicit formalism

---
 pymbs/processing/generator_explicit.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 7158c7e..421cbaa 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -75,6 +75,8 @@ class Generator_Explicit(Generator):
                 body.I_R = symbolics.eye((3,3))
                 body.K_om = symbolics.zeros((3,))
                 body.K_al = symbolics.zeros((3,))
+                body.I_om = symbolics.zeros((3,))
+                body.I_al = symbolics.zeros((3,))
             else:
                 # Get Reference to Parent Body
                 joint = body.joint
@@ -94,6 +96,10 @@ class Generator_Explicit(Generator):
     #            body.K_al = body.K_al.applyfunc(lambda x: pymbs.Symbolics.trigsimp(x, recursive=True))
                 body.K_al = jacobian(body.K_om, self.q)*self.qd + jacobian(body.K_om, self.qd)*self.qdd
 
+                # w.r.t. Inertial Frame
+                body.I_om = body.I_R*body.K_om
+                body.I_al = body.I_R*body.K_al
+
             # Update cg
             body.I_l = body.I_r + body.I_R*body.cg
             body.I_ldot = jacobian(body.I_l, self.q)*self.qd
@@ -103,6 +109,8 @@ class Generator_Explicit(Generator):
                 # Do the Update
                 childCS.K_om = transpose(childCS.R)*body.K_om
                 childCS.K_al = transpose(childCS.R)*body.K_al
+                childCS.I_om = body.I_om
+                childCS.I_al = body.I_al
                 childCS.I_R = body.I_R*childCS.R
                 childCS.I_r = body.I_r + body.I_R*childCS.p
                 childCS.I_v = jacobian(childCS.I_r, self.q)*self.qd
-- 
2.43.0


From d7f6f5ee495ac327c92eb1997e28db9cfb0d2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 42/96] fix: explicit equations of one degree of freedom mixed
 scalars and 1x1 matrices

---
 pymbs/processing/generator_explicit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 421cbaa..aec3dba 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -267,10 +267,10 @@ class Generator_Explicit(Generator):
             # Add Them to the List
             if (fel.force is not None):
                 Wf_sym = graph.addEquation('WF_%s' % fel.name, Wf)
-                f_ext += Wf_sym * fel.force
+                f_ext += scalar_if_possible(Wf_sym * fel.force)
             if (fel.torque is not None):
                 Wt_sym = graph.addEquation('WT_%s' % fel.name, Wt)
-                f_ext += Wt_sym * fel.torque
+                f_ext += scalar_if_possible(Wt_sym * fel.torque)
 
         print("Simplifying M")
         M_red = simple(M_red)
@@ -303,7 +303,7 @@ class Generator_Explicit(Generator):
             h_ = graph.addEquation('h_', scalar_if_possible(h_red))
             f_gravity_ = graph.addEquation('f_gravity_', scalar_if_possible(f_red))
 
-        if (f_ext==0):
+        if (f_ext==0 and len(f_gravity_.shape()) > 0):
             f_ext = Matrix( f_gravity_.shape() )
 
         f_ext_ = graph.addEquation('f_ext_', scalar_if_possible(f_ext))
-- 
2.43.0


From 89d0cf56c0dd10bc5a5b8ab5c8e31cacc959d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:08 +0000
Subject: [PATCH 43/96] fix: energy sensor crashed with the recursive and was
 wrong with the order-n formalism

---
 pymbs/processing/body.py                  | 2 ++
 pymbs/processing/generator_order_n.py     | 2 ++
 pymbs/processing/sensors/energy_sensor.py | 8 +++++---
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/body.py b/pymbs/processing/body.py
index 8bbe6d5..b4f0f75 100644
--- a/pymbs/processing/body.py
+++ b/pymbs/processing/body.py
@@ -36,6 +36,7 @@ class Body(AbstractBody):
         self.I_v = None   # Velocity of Origin w.r.t. Inertial Frame
         self.I_a = None   # Acceleration of Origin w.r.t. Inertial Frame
         self.I_l = None   # Centre of Gravity w.r.t. Inertial Frame
+        self._inertia_cg = None   # Inertia w.r.t. the Centre of Gravity, if inertia refers to another point
 
         self.I_R =  None  # Transformation Matrix, Inertial Frame <- Body Frame
         self.K_om = None  # Angular Velocity w.r.t. (Body Frame if Explicit, Inertial Frame if Recursive!!!)
@@ -91,6 +92,7 @@ class FlexibleBody(AbstractBody):
         self.I_v = None   # Velocity of Origin w.r.t. Inertial Frame
         self.I_a = None   # Acceleration of Origin w.r.t. Inertial Frame
         self.I_l = None   # Centre of Gravity w.r.t. Inertial Frame
+        self._inertia_cg = None   # Inertia w.r.t. the Centre of Gravity, if inertia refers to another point
 
         self.I_R =  None  # Transformation Matrix, Inertial Frame <- Body Frame
         self.K_om = None  # Angular Velocity w.r.t. (Body Frame if Explicit, Inertial Frame if Recursive!!!)
diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..b46c53a 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -216,6 +216,7 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
+                body._inertia_cg = body.inertia
                 body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
@@ -283,6 +284,7 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
+                body._inertia_cg = body.inertia
                 body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..d9ce891 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -28,9 +28,9 @@ class EnergySensor(Sensor):
         '''
         assert( graph is not None )
 
-        # get mass and Inertia of body
+        # get mass and Inertia of body (w.r.t. its centre of gravity)
         m = self.body.mass
-        I = self.body.inertia
+        I = self.body.inertia if self.body._inertia_cg is None else self.body._inertia_cg
 
         # get potential Energy
         assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
@@ -38,8 +38,10 @@ class EnergySensor(Sensor):
 
         # get kinetic energy
         assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
+        # (the recursive formalism writes inertia and angular velocity w.r.t. the inertial frame)
+        om = self.body.I_om if self.body.K_om is None else self.body.K_om
         E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+                0.5*transpose(om)*I*om
 
         # Total Energy
         E = E_pot + E_kin
-- 
2.43.0


From f4096cad18f7541a236c53a6049a292dfc28763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 44/96] fix: order-n ignored the orientation of the frame a
 translational joint is attached to

---
 pymbs/processing/generator_order_n.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index b46c53a..dd8fa8a 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*(joint.Psi*joint.q), shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -229,7 +229,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + cs.R*(joint.qd*joint.Psi)), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -276,7 +276,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*(joint.Psi*joint.q), shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -307,7 +307,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + cs.R*(joint.qd*joint.Psi)), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
-- 
2.43.0


From fb7325c527a7ebdcf0432b93421af7daac6e1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 45/96] fix: order-n added the gyroscopic torque with the wrong
 sign

---
 pymbs/processing/generator_order_n.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index dd8fa8a..f499775 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -617,9 +617,7 @@ class Generator_OrderN(Generator):
                 J_2 = graph.addEquation(J%bName+"_2", -J_1)
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
-    #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 8e5da47e80e4e582bf45a084f28a8fc29b6e51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 46/96] fix: order-n applied loads in the attached frame
 instead of the body frame

---
 pymbs/processing/generator_order_n.py | 28 ++++++++++-----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index f499775..ab7eb9f 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -571,15 +571,11 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        if (load.ref is None): # ref = inertial frame
+                            T = transpose(body.I_R)
+                        else:
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
@@ -700,15 +696,11 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        if (load.ref is None): # ref = inertial frame
+                            T = transpose(body.I_R)
+                        else:
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
                             Phi_SID = None
-- 
2.43.0


From e6c16e6246267eb7b8a1936209f98c06de80ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 47/96] fix: joint loads acted away from the joint if the body
 is attached by a shifted frame

---
 pymbs/processing/loads/joint_load.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loads/joint_load.py b/pymbs/processing/loads/joint_load.py
index d107082..3530f44 100644
--- a/pymbs/processing/loads/joint_load.py
+++ b/pymbs/processing/loads/joint_load.py
@@ -3,7 +3,7 @@ from pymbs.common.functions import transpose, norm
 
 from pymbs.processing import Joint
 
-from pymbs.symbolics import eye
+from pymbs.symbolics import eye, zeros
 
 
 class JointLoad(Load):
@@ -33,7 +33,8 @@ class JointLoad(Load):
 
         # Constructor of Super Class
         # BugFix for 014:
-        if (joint.body.CS_0.R != eye(3)):
+        # (the load acts at the origin of the joint, which need not be the one of CS_0)
+        if (joint.body.CS_0.R != eye(3) or joint.body.CS_0.p != zeros((3,))):
             if (not hasattr(joint.body, '_CS_0')):
                 joint.body._CS_0 = joint.body.addFrame('_int_CS0_2')
             Load.__init__(self, name, joint.body._CS_0, joint.coordSys, force, torque)
-- 
2.43.0


From b31294b082b5d54d139bc9f6a57949d3c60f60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 48/96] fix: addJoint removed the last degree of freedom from
 the caller's list

---
 pymbs/input/mbs_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..7094ebb 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -401,6 +401,7 @@ class MbsSystem(Body):
             startVals = [0]     # just some dummy start vals
             startVals_d = [0]
         else:
+            dofList = list(dofList)     # leave the list of the caller alone
             lastDOF=dofList.pop()
         startCS=CS1
 
-- 
2.43.0


From 010e55d8518a72a3bc5bffd774d51aad68c72bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 49/96] fix: explicit equations of kinematicsOnly had no
 states, nothing could be written

---
 pymbs/processing/generator_explicit.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index aec3dba..39a0b4c 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -42,6 +42,7 @@ class Generator_Explicit(Generator):
 
         if (self.kinematicsOnly):
             self.handleLoops(graph)
+            self.defineStates(graph)
         else:
             # Obtain Equations
             print(self.q, self.q.__class__)
@@ -117,6 +118,25 @@ class Generator_Explicit(Generator):
                 childCS.I_a = jacobian(childCS.I_v, self.q)*self.qd + jacobian(childCS.I_v, self.qd)*self.qdd
 
 
+    def defineStates(self, graph):
+        '''
+        Define q and qd as states if the accelerations are given as an input
+        '''
+
+        assert self.kinematicsOnly == True
+
+        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
+        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
+        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ), varKind=VarKind.Input)
+
+        graph.addEquation(self.state.q, q)
+        graph.addEquation(self.state.qd, qd)
+        graph.addEquation(self.state.qdd, qdd)
+
+        graph.addEquation(der(q), qd)
+        graph.addEquation(der(qd), qdd)
+
+
     def distribute(self, J, W):
         '''
         Calculates J'*W, which is a row vector if there is just one degree of freedom
-- 
2.43.0


From 30473b924b858d2d37156816de36f0b060480a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 50/96] fix: constraint torques contained the moment of the
 external force twice

---
 pymbs/processing/generator_recursive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..ec3e61b 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -536,7 +536,7 @@ class Generator_Recursive(Generator):
 
             F_b += body.mass*(body._I_l_ddot+self.inertial._alpha_C)-body._F_ext   # (24), self.inertial._alpha_C = -g, see p.189 below (10)
             body._F = graph.addEquation(F%bName, F_b, shape=(3,))
-            L_b += body._l_tilde*body._F + \
+            L_b += body._l_tilde*(body._F+body._F_ext) + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
                    body._L_ext   # (26)
-- 
2.43.0


From ac506d7f3726efd89dc7e417602d22beafc80b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 51/96] fix: constraint sensors were silently zero with the
 explicit and order-n formalisms

---
 pymbs/processing/joint.py                            | 5 +++--
 pymbs/processing/sensors/constraint_force_sensor.py  | 4 ++--
 pymbs/processing/sensors/constraint_torque_sensor.py | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pymbs/processing/joint.py b/pymbs/processing/joint.py
index 5c9ec9c..b5770f3 100644
--- a/pymbs/processing/joint.py
+++ b/pymbs/processing/joint.py
@@ -76,5 +76,6 @@ class Joint(MbsElement):
             self.R = transpose(self.R)
 
         # Initialise Constraint Forces/Torques
-        self.F = zeros((3,))
-        self.L = zeros((3,))
+        # (calculated by the recursive formalism only)
+        self.F = None
+        self.L = None
diff --git a/pymbs/processing/sensors/constraint_force_sensor.py b/pymbs/processing/sensors/constraint_force_sensor.py
index bcfe909..caea6ec 100644
--- a/pymbs/processing/sensors/constraint_force_sensor.py
+++ b/pymbs/processing/sensors/constraint_force_sensor.py
@@ -33,8 +33,8 @@ class ConstraintForceSensor(Sensor):
         assert( graph is not None )
 
         # Warning if explicit generator is used
-        if ('F' not in self.joint.__dict__):
-            print("Warning: Calculation of Constraint Forces not yet supported for 'explicit=True'")
+        if (self.joint.F is None):
+            raise NotImplementedError("Sensor %s: Calculation of Constraint Forces is only supported by the recursive formalism"%self.name)
         
         self.writeResult(graph, self.joint.F)
 
diff --git a/pymbs/processing/sensors/constraint_torque_sensor.py b/pymbs/processing/sensors/constraint_torque_sensor.py
index b7fd93b..1072dff 100644
--- a/pymbs/processing/sensors/constraint_torque_sensor.py
+++ b/pymbs/processing/sensors/constraint_torque_sensor.py
@@ -32,8 +32,8 @@ class ConstraintTorqueSensor(Sensor):
         assert( graph is not None )
 
         # Warning if explicit generator is used
-        if ('L' not in self.joint.__dict__):
-            print("Warning: Calculation of Constraint Torques not yet supported for 'explicit=True'")
+        if (self.joint.L is None):
+            raise NotImplementedError("Sensor %s: Calculation of Constraint Torques is only supported by the recursive formalism"%self.name)
         
         self.writeResult(graph, self.joint.L)
 
-- 
2.43.0


From af810c9f11956557bf14d61211ea453b6a715969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 52/96] fix: acceleration sensors of the order-n formalism
 contained gravity

---
 pymbs/processing/generator_order_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index ab7eb9f..f6763c6 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -989,7 +989,7 @@ class Generator_OrderN(Generator):
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
             graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)    # gravity is treated as an acceleration of the inertial frame
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
-- 
2.43.0


From d6b1314dfbc6146c889bc557ee54bbaf9dc794b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 53/96] fix: stopping the animation thread right after its
 start was lost, and restarting it left two loops running

---
 pymbs/ui/thread.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pymbs/ui/thread.py b/pymbs/ui/thread.py
index d76487a..7d6ee59 100644
--- a/pymbs/ui/thread.py
+++ b/pymbs/ui/thread.py
@@ -25,6 +25,7 @@ class PyMbsThread(threading.Thread):
     def __init__(self, function, realtime=False):
         threading.Thread.__init__(self)
         self.execute = False
+        self.stopped = threading.Event()
         self.function = function
         self.realtime = realtime
         self.scaling = 1
@@ -36,12 +37,21 @@ class PyMbsThread(threading.Thread):
 
 
     def reinit(self):
-        if (self.execute):
-            self.stop()
+        self.stop()
+
+        # the old loop must have ended before a new one is started
+        if (self.is_alive() and self is not threading.current_thread()):
+            self.join()
 
         self.__init__(self.function, self.realtime)
 
 
+    def start(self):
+        # set before the thread runs, so that stop() is never overridden
+        self.execute = True
+        threading.Thread.start(self)
+
+
     def run(self):
         # Initialise Offsets
         self.real_offset = time.time()
@@ -52,7 +62,6 @@ class PyMbsThread(threading.Thread):
         # print "Starting Thread " + str(id(self))
 
         # Endless Loop
-        self.execute = True
         while self.execute:
 
             # synchronise with real time
@@ -64,7 +73,10 @@ class PyMbsThread(threading.Thread):
                 # Difference
                 deltaT = model-real
                 if (deltaT > 0):
-                    time.sleep(deltaT)
+                    # returns at once if the thread is stopped
+                    self.stopped.wait(deltaT)
+                    if (not self.execute):
+                        break
 
             # Execute next step
             t = self.function()
@@ -75,6 +87,7 @@ class PyMbsThread(threading.Thread):
 
     def stop(self):
         self.execute = False
+        self.stopped.set()
 
         # Debug
         # print "Stopped Thread " + str(id(self))
-- 
2.43.0


From d8fdde0562f32999ceef11f9d0b9d9b76c9e63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 54/96] fix: adjusting the system clock froze or rushed the
 animation

---
 pymbs/ui/thread.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/ui/thread.py b/pymbs/ui/thread.py
index 7d6ee59..dcf102f 100644
--- a/pymbs/ui/thread.py
+++ b/pymbs/ui/thread.py
@@ -54,7 +54,7 @@ class PyMbsThread(threading.Thread):
 
     def run(self):
         # Initialise Offsets
-        self.real_offset = time.time()
+        self.real_offset = time.monotonic()
         self.model_offset = self.function()
         t = self.model_offset
 
@@ -67,7 +67,7 @@ class PyMbsThread(threading.Thread):
             # synchronise with real time
             if (self.realtime):
                 # Real Elapsed Time
-                real = self.scaling*(time.time() - self.real_offset)
+                real = self.scaling*(time.monotonic() - self.real_offset)
                 # Model Elapsed Time
                 model = t - self.model_offset
                 # Difference
-- 
2.43.0


From 9313a21d562896ede63b7633505ecce8b1acc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 55/96] fix: playback was not in step with real time for
 scalings other than one

---
 pymbs/ui/thread.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/ui/thread.py b/pymbs/ui/thread.py
index dcf102f..c69dba7 100644
--- a/pymbs/ui/thread.py
+++ b/pymbs/ui/thread.py
@@ -65,13 +65,13 @@ class PyMbsThread(threading.Thread):
         while self.execute:
 
             # synchronise with real time
-            if (self.realtime):
+            if (self.realtime and self.scaling > 0):
                 # Real Elapsed Time
                 real = self.scaling*(time.monotonic() - self.real_offset)
                 # Model Elapsed Time
                 model = t - self.model_offset
-                # Difference
-                deltaT = model-real
+                # Difference (in real time)
+                deltaT = (model-real)/self.scaling
                 if (deltaT > 0):
                     # returns at once if the thread is stopped
                     self.stopped.wait(deltaT)
-- 
2.43.0


From 011454f3ae695796f633a2ec212c54ad56195b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 56/96] fix: show and simulate could run the code of an earlier
 model of the same name

The generated code was written to the shared temporary directory and imported
by name, so a module of an earlier model or of another process was used, and
files of other models were deleted. Every call has a directory of its own now.
simulate() raises an error instead of returning without a result.
---
 pymbs/common/modelcode.py     | 55 +++++++++++++++++++++++++++++++++++
 pymbs/input/mbs_system.py     | 27 ++++++++---------
 pymbs/input/transformation.py | 26 ++++++-----------
 pymbs/ui/gui.py               | 33 +++++++++++----------
 4 files changed, 93 insertions(+), 48 deletions(-)
 create mode 100644 pymbs/common/modelcode.py

diff --git a/pymbs/common/modelcode.py b/pymbs/common/modelcode.py
new file mode 100644
index 0000000..2aa5847
--- /dev/null
+++ b/pymbs/common/modelcode.py
@@ -0,0 +1,55 @@
+"""
+This module contains a private place for the generated code of one model.
+"""
+
+import importlib
+import shutil
+import sys
+import tempfile
+
+
+class ModelCode(object):
+    """
+    Directory for the generated code of one model. It belongs to one call only,
+    so neither the code of an earlier model of the same name nor another
+    process can get in the way. As long as it is open its modules can be
+    imported, they are searched there first.
+
+    with ModelCode(modelname) as code:
+        graph.writeCode('py', modelname, code.path)
+        module = importlib.import_module(modelname + '_der_state')
+    """
+
+    def __init__(self, modelname):
+        self.modelname = modelname
+        self.path = tempfile.mkdtemp(prefix='pymbs_')
+        sys.path.insert(0, self.path)
+        self.forget()
+
+
+    def __enter__(self):
+        return self
+
+
+    def __exit__(self, *args):
+        self.close()
+
+
+    def forget(self):
+        """
+        Forget modules of this or an earlier model with this name, the next
+        import reads the files again.
+        """
+        for part in ('_der_state', '_sensors', '_visual'):
+            for wrapper in ('', '_CWrapper', '_F90Wrapper'):
+                sys.modules.pop(self.modelname + part + wrapper, None)
+
+        importlib.invalidate_caches()
+
+
+    def close(self):
+        """Remove the directory."""
+        self.forget()
+        if self.path in sys.path:
+            sys.path.remove(self.path)
+        shutil.rmtree(self.path, ignore_errors=True)
diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 7094ebb..1333d6e 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -44,15 +44,14 @@ In the following the members of the module pymbs.Input are explained in more
 detail.
 '''
 
-import sys
-import tempfile
-
 from numpy import inf
 from math import pi
 import numpy as np
 
 import pymbs.symbolics as symbolics
 import pymbs.common.functions as functions
+from pymbs.common.modelcode import ModelCode
+from pymbs.common.pymbserror import PyMbsError
 
 from .frame import Frame
 
@@ -1847,20 +1846,18 @@ class MbsSystem(Body):
             modelname = 'pymbsModel'
 
         _Graph = self.graph
-        _Graph.writeCode('py', modelname, tempfile.gettempdir())
 
-        sys.path.insert(0, tempfile.gettempdir())
+        with ModelCode(modelname) as code:
+            _Graph.writeCode('py', modelname, code.path)
 
-        try:
-            der_state_file = __import__('%s_der_state'%modelname, globals(),
-                                        locals(), [])
-            mod_der_state = getattr(der_state_file, '%s_der_state'%modelname)
-        except:
-            print("state derivative file '%s_der_state.py' or "\
-                "needed function inside this file not found! Something went "\
-                "wrong during code generation.\n%s" \
-                % (modelname,sys.exc_info()), file=sys.stderr)
-            return
+            try:
+                der_state_file = __import__('%s_der_state'%modelname, globals(),
+                                            locals(), [])
+                mod_der_state = getattr(der_state_file, '%s_der_state'%modelname)
+            except Exception as err:
+                raise PyMbsError("state derivative file '%s_der_state.py' or "\
+                    "needed function inside this file not found! Something went "\
+                    "wrong during code generation.\n%s" % (modelname, err)) from err
 
         qd0 = list(np.zeros(len(q0)))
         integrator = Integrator(mod_der_state, q0, qd0)
diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 90b71b6..0336d57 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -4,7 +4,6 @@ processing-data-structures
 '''
 
 import os
-import tempfile
 
 from pymbs.symbolics import Symbol, eye, Matrix
 
@@ -26,6 +25,7 @@ from . import loads as iLoads
 
 from pymbs.common.functions import transpose, skew, skew_numpy
 from pymbs.common.pymbserror import PyMbsError
+from pymbs.common.modelcode import ModelCode
 
 from pymbs.processing.body import Body as pBody
 from pymbs.processing.body import FlexibleBody as pFlexibleBody
@@ -838,25 +838,17 @@ class PublicMethods(object):
         assert isinstance(model, MbsSystem)
 
         _graph = model.graph
-        tempdir = tempfile.gettempdir()
 
-        # Clean up any existing files from previous runs of the same model
-        for i in os.listdir(tempdir):
-            if i.startswith(f'{modelname}_der_state') or \
-               i.startswith(f'{modelname}_sensors') or \
-               i.startswith(f'{modelname}_visual') or \
-               i.startswith('functionmodule.'):
-               os.remove(os.path.join(tempdir, i))
+        # Write Python Code to a directory of its own
+        with ModelCode(modelname) as code:
+            print(f"Writing model code for GUI to temporary directory: {code.path}")
+            _graph.writeCode('py', modelname, code.path)
 
-        # Write Python Code
-        print(f"Writing model code for GUI to temporary directory: {tempdir}")
-        _graph.writeCode('py', modelname, tempdir)
+            # This is the list of graphRep objects:
+            grList = list(model.graphRepDict.values())
 
-        # This is the list of graphRep objects:
-        grList = list(model.graphRepDict.values())
-
-        launchGui(grList, _graph, modelname, _gravity,
-                  model.state, options, **kwargs)
+            launchGui(grList, _graph, modelname, _gravity,
+                      model.state, options, code.path, **kwargs)
 
 
     @staticmethod
diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index c317a49..cdaca34 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1,7 +1,6 @@
 import os
 import sys
 import time
-import tempfile
 import vtk  # vtk widget remains blank without this?!
 
 import numpy as np
@@ -705,9 +704,12 @@ class Gui(QMainWindow, pymbsMainWindow):
     Create the user interface with sliders according to genCoords
     '''
 
-    def __init__(self, grList, graph, modelName, state, options, **kwargs):
+    def __init__(self, grList, graph, modelName, state, options, codeDir, **kwargs):
         QMainWindow.__init__(self)
 
+        # directory of the generated code
+        self.codeDir = codeDir
+
         if not grList:
             raise PyMbsError('Cannot show system. There are no visualisation '\
                              'objects defined. Call <addVisualisation.xyz()> '\
@@ -880,9 +882,8 @@ class Gui(QMainWindow, pymbsMainWindow):
 
 
         # import generated files
-        # insert tempDir in first place, so that it is searched first
+        # codeDir is searched first, see pymbs.common.modelcode
         # we had problems if there was a *_visual in the current directory
-        sys.path.insert(0, tempfile.gettempdir())
 
         # import generated der_state_file
         self.mod_der_state = None
@@ -997,16 +998,16 @@ class Gui(QMainWindow, pymbsMainWindow):
 
     def compileModelF90(self):
         print('Creating and compiling Fortran90 sources...')
-        print("Writing sources to '%s'"%tempfile.gettempdir())
+        print("Writing sources to '%s'"%self.codeDir)
 
-        self.graph.writeCode('f90', self.modelName, tempfile.gettempdir(), pymbs_wrapper=True)
+        self.graph.writeCode('f90', self.modelName, self.codeDir, pymbs_wrapper=True)
 
         print("Compiling Fortran Code ...")
-        compileF90('%s_der_state' % self.modelName, tempfile.gettempdir())
-        compileF90('%s_visual' % self.modelName, tempfile.gettempdir())
+        compileF90('%s_der_state' % self.modelName, self.codeDir)
+        compileF90('%s_visual' % self.modelName, self.codeDir)
 
         if self.sensors:
-           compileF90('%s_sensors' % self.modelName, tempfile.gettempdir())
+           compileF90('%s_sensors' % self.modelName, self.codeDir)
 
         self.mod_der_state = None
         self.mod_der_state_setInputs = None
@@ -1042,19 +1043,19 @@ class Gui(QMainWindow, pymbsMainWindow):
     def compileModelC(self):
         self.compileCButton.setEnabled(False)
         print('Creating and compiling C sources...')
-        print("Writing sources to '%s'"%tempfile.gettempdir())
+        print("Writing sources to '%s'"%self.codeDir)
 
         self.dynamicLibraries = []
-        self.graph.writeCode('c', self.modelName, tempfile.gettempdir(), pymbs_wrapper=True)
+        self.graph.writeCode('c', self.modelName, self.codeDir, pymbs_wrapper=True)
         print("Compiling C Code ...")
         self.dynamicLibraries.append(
-            compileC('%s_der_state' % self.modelName, tempfile.gettempdir()))
+            compileC('%s_der_state' % self.modelName, self.codeDir))
         self.dynamicLibraries.append(
-            compileC('%s_visual' % self.modelName, tempfile.gettempdir()))
+            compileC('%s_visual' % self.modelName, self.codeDir))
 
         if self.sensors:
             self.dynamicLibraries.append(
-                compileC('%s_sensors' % self.modelName, tempfile.gettempdir()))
+                compileC('%s_sensors' % self.modelName, self.codeDir))
 
         try:
             der_state_file = __import__('%s_der_state_CWrapper' % self.modelName)
@@ -1448,9 +1449,9 @@ def myCallback(renWin, event):
 
 
 
-def launchGui(grList, graph, modelname, gravity, state, options, **kwargs):
+def launchGui(grList, graph, modelname, gravity, state, options, codeDir, **kwargs):
     app = QApplication(sys.argv)
-    gui = Gui(grList, graph, modelname, state, options, **kwargs)
+    gui = Gui(grList, graph, modelname, state, options, codeDir, **kwargs)
     gui.show()
 
     # determine normal
-- 
2.43.0


From 4604ae16e99d21c8b30d66c1b56025fc4d7bc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 57/96] fix: sensor and graphics functions read states they do
 not use

---
 symbolics/writer/CSharpWriter.cpp  | 6 ++++++
 symbolics/writer/CWriter.cpp       | 6 ++++++
 symbolics/writer/FortranWriter.cpp | 6 ++++++
 symbolics/writer/MatlabWriter.cpp  | 3 +++
 symbolics/writer/PythonWriter.cpp  | 6 ++++++
 symbolics/writer/Writer.cpp        | 9 +++++++++
 symbolics/writer/include/Writer.h  | 3 +++
 7 files changed, 39 insertions(+)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index f4424b3..bc1b299 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -198,6 +198,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -265,6 +266,8 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	f << "    /* declare state variables */" << std::endl;
 	for (size_t i=0; i < states.size(); ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
@@ -322,6 +325,7 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -365,6 +369,8 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	f << "/* declare state variables */" << std::endl;
 	for (size_t i=0; i < states.size(); ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index a6df6c2..a9d0ce2 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -205,6 +205,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -241,6 +242,8 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << "/* declare state variables */" << std::endl;
 	for (size_t i=0; i < states.size(); ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
@@ -304,6 +307,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -347,6 +351,8 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << "/* declare state variables */" << std::endl;
 	for (size_t i=0; i < states.size(); ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 3d05a16..559199c 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -195,6 +195,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -282,6 +283,8 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	fss << "!define states" << std::endl; 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
+		if (!contains(used, states.at(i)))
+			continue;
         Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
@@ -328,6 +331,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -403,6 +407,8 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
+		if (!contains(used, states.at(i)))
+			continue;
         Shape n = states.at(i)->getShape(); 
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 186b598..236ab44 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -339,6 +339,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -367,6 +368,8 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		const Symbolics::BasicPtr s = states.at(i);
 		f << "	" << m_p->print(s) << " = y("
 		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 9eb1e8f..9b76b75 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -226,6 +226,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -287,6 +288,8 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
@@ -356,6 +359,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -417,6 +421,8 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # state" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
+		if (!contains(used, states.at(i)))
+			continue;
 		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
diff --git a/symbolics/writer/Writer.cpp b/symbolics/writer/Writer.cpp
index 2ccd712..66d562f 100644
--- a/symbolics/writer/Writer.cpp
+++ b/symbolics/writer/Writer.cpp
@@ -1,5 +1,6 @@
 #include "Writer.h"
 #include "str.h"
+#include <algorithm>
 
 #ifdef WIN32
   #include <time.h>
@@ -95,3 +96,11 @@ bool Writer::sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::
 	return (*(a.get()) < *(b.get())); 
 }
 /*****************************************************************************/
+
+/*****************************************************************************/
+bool Writer::contains (const Graph::VariableVec &v, boost::intrusive_ptr<Symbolics::Symbol> s)
+/*****************************************************************************/
+{
+	return std::find(v.begin(), v.end(), s) != v.end();
+}
+/*****************************************************************************/
diff --git a/symbolics/writer/include/Writer.h b/symbolics/writer/include/Writer.h
index b73da74..2a311a0 100644
--- a/symbolics/writer/include/Writer.h
+++ b/symbolics/writer/include/Writer.h
@@ -50,6 +50,9 @@ namespace Symbolics
 		// Die Funktion muss static sein, da sie als functionpointer verwendet wird
 		static bool sortVariableVec (boost::intrusive_ptr<Symbolics::Symbol> a, boost::intrusive_ptr<Symbolics::Symbol> b);
 
+		// Ist die Variable im Vektor enthalten?
+		static bool contains (const Graph::VariableVec &v, boost::intrusive_ptr<Symbolics::Symbol> s);
+
     public:
         double generateTarget(std::string name, std::string path, Graph::Graph& g, bool optimize);
 
-- 
2.43.0


From 30020b3a2487f6ffe45197988641487c27575183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 58/96] fix: sliders did not stand at the initial value, start
 values out of range were unreachable

---
 pymbs/ui/gui.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index cdaca34..24117bd 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -336,8 +336,15 @@ class LabeledSlider(QWidget):
 
     def setInitVal(self, init):
         assert( isinstance(init, (float, int)) )
+        initScaled = init
         if (self.scale is not None):
-            initScaled = int(init * self.scale)
+            initScaled = init * self.scale
+        initScaled = int(round(initScaled))
+
+        # the initial value must be within reach
+        self.slider.setMinimum(min(self.slider.minimum(), initScaled))
+        self.slider.setMaximum(max(self.slider.maximum(), initScaled))
+        self.slider.setValue(initScaled)
 
         self.initVal = initScaled
         self.stateVal = initScaled
@@ -831,7 +838,6 @@ class Gui(QMainWindow, pymbsMainWindow):
 
             init = float(str(initVals[i]))
             slider.setInitVal(init)
-            slider.slider.setValue(int(init))  # TODO was float, requires int now
 
             self.kintestSliderGroupLayout.addWidget(slider)
             self.sliders.append(slider)
@@ -851,7 +857,6 @@ class Gui(QMainWindow, pymbsMainWindow):
             self.qScalingSlider.setLimits(10, max(2*10*initVal,1000))
             self.qScalingSlider.scale = 10.
             self.qScalingSlider.setInitVal(initVal)
-            self.qScalingSlider.slider.setValue(initVal*10)
             self.simulationLayout.insertWidget(3, self.qScalingSlider)
 
 
@@ -869,9 +874,8 @@ class Gui(QMainWindow, pymbsMainWindow):
             slider.setOrientation(Qt.Orientation.Horizontal)
             slider.setLimits(-500,500)
             slider.scale = 100.
-            init = int(str(self.graph.getinitVal(self.inputs[i])))
+            init = float(str(self.graph.getinitVal(self.inputs[i])))
             slider.setInitVal(init)
-            slider.slider.setValue(init)
 
             self.simulationSliderGroupLayout.addWidget(slider)
             self.inputSliders.append(slider)
-- 
2.43.0


From 627a2b4b02efa3424789cdfc0fd82940ea145554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 59/96] fix: a change of the state during the update of the
 scene was never drawn

---
 pymbs/ui/gui.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 24117bd..18f6838 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1284,7 +1284,10 @@ class Gui(QMainWindow, pymbsMainWindow):
         if not self.qChanged:
             return
 
-        q = [self.q[i]*self.qScaling[i] for i in range(self.nq)]
+        # reset first: the state may change again while the scene is updated
+        self.qChanged = False
+        state = self.q
+        q = [state[i]*self.qScaling[i] for i in range(self.nq)]
 
         # calculate sensors
         values = self.mod_sensors_visual(q[:self.nq])
@@ -1351,7 +1354,6 @@ class Gui(QMainWindow, pymbsMainWindow):
         # save state and sensor values as class member for recorder
         self.sensorValues = values
         self.sensorState = q[:self.nq]
-        self.qChanged = False
 
 
 
-- 
2.43.0


From c216b9943cc94f8fd67066f23d447e7fba72ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 60/96] fix: restarting the simulation could advance the new
 run from the thread of the old one

---
 pymbs/ui/gui.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 18f6838..137d8e4 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1111,8 +1111,9 @@ class Gui(QMainWindow, pymbsMainWindow):
                 qd0 += self.mu0
             '''
 
-            self.integrator = Integrator(self.mod_der_state, q0, qd0)
+            # waits for the last step of a previous run
             self.SimThread.reinit()
+            self.integrator = Integrator(self.mod_der_state, q0, qd0)
             self.SimThread.start()
         else:
             # Stop Thread
-- 
2.43.0


From d9331b71b4081d1fbe3201b18289dbdb6def1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 61/96] fix: the state returned by the integrator was
 overwritten by the next step, scenes showed a mixture of two steps

---
 pymbs/ui/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/integrator.py b/pymbs/ui/integrator.py
index 84e087c..1ea2e7a 100644
--- a/pymbs/ui/integrator.py
+++ b/pymbs/ui/integrator.py
@@ -53,4 +53,5 @@ class Integrator(integrate.ode):
         time t + dt.
         """
         self.integrate(self.t + self.dt)
-        return self.y
+        # lsoda works on one and the same array in every step
+        return self.y.copy()
-- 
2.43.0


From d791ec310f0efa0917f111bc9f692451323c2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 62/96] fix: the last step of a stopped simulation overwrote
 sliders moved meanwhile

---
 pymbs/ui/gui.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 137d8e4..7e3c942 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1116,8 +1116,18 @@ class Gui(QMainWindow, pymbsMainWindow):
             self.integrator = Integrator(self.mod_der_state, q0, qd0)
             self.SimThread.start()
         else:
-            # Stop Thread
-            self.SimThread.stop()
+            self.stopSimulation()
+
+
+
+    def stopSimulation(self):
+        '''
+        Stop the simulation. Its last step has been done upon return, i.e. it
+        does not overwrite a state which is set afterwards.
+        '''
+        self.SimThread.stop()
+        if self.SimThread.is_alive():
+            self.SimThread.join()
 
 
 
@@ -1166,7 +1176,7 @@ class Gui(QMainWindow, pymbsMainWindow):
         # stop simulation
         if self.simulateButton.isChecked():
             self.simulateButton.setChecked(False)
-            self.SimThread.stop()
+            self.stopSimulation()
 
         # ReInit Thread if already running
         if (self.playResultsButton.isChecked()):
@@ -1437,9 +1447,7 @@ class Gui(QMainWindow, pymbsMainWindow):
         Overload closeEvent to stop simulation, in case it was running
         when the window was closed
         """
-        if self.SimThread.is_alive():
-            self.SimThread.stop()
-            self.SimThread.join()
+        self.stopSimulation()
         event.accept()
 
 
-- 
2.43.0


From 151d81da812c9f41a0e939b5150bd7f6bc1ca7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 63/96] fix: resetting the integrator replaced its tolerances
 by the defaults

---
 pymbs/ui/integrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymbs/ui/integrator.py b/pymbs/ui/integrator.py
index 1ea2e7a..cbc77d2 100644
--- a/pymbs/ui/integrator.py
+++ b/pymbs/ui/integrator.py
@@ -24,6 +24,8 @@ class Integrator(integrate.ode):
         self.y0 = list(y0)
         self.yd0 = list(yd0)
         self.init_vals = self.y0 + self.yd0
+        self.rtol = rtol
+        self.atol = atol
         self.set_integrator('lsoda', rtol=rtol, atol=atol)
         self.set_initial_value(self.init_vals)
         self.dt = dt
@@ -42,7 +44,8 @@ class Integrator(integrate.ode):
         """
         Reset the integrator to restart the simulation
         """
-        self.__init__(self.handle, self.y0, self.yd0, self.dt)
+        self.__init__(self.handle, self.y0, self.yd0, self.dt,
+                      self.rtol, self.atol)
 
 
     def step(self):
-- 
2.43.0


From 63a90fa179e66ecc3417dd483d541d4a1a9e2177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 64/96] fix: a simulation whose integration failed never ended

---
 pymbs/ui/integrator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymbs/ui/integrator.py b/pymbs/ui/integrator.py
index cbc77d2..7a9c869 100644
--- a/pymbs/ui/integrator.py
+++ b/pymbs/ui/integrator.py
@@ -4,6 +4,8 @@ pymbs ui/app.
 """
 from scipy import integrate
 
+from pymbs.common.pymbserror import PyMbsError
+
 
 class Integrator(integrate.ode):
     """
@@ -56,5 +58,8 @@ class Integrator(integrate.ode):
         time t + dt.
         """
         self.integrate(self.t + self.dt)
+        # the time does not advance once the integrator has failed
+        if not self.successful():
+            raise PyMbsError('the integration failed at t = %g' % self.t)
         # lsoda works on one and the same array in every step
         return self.y.copy()
-- 
2.43.0


From de930c7f7660a1fbc9d7f3c0a5fd0aee5447fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 65/96] fix: simulate() accepted initial conditions for too few
 coordinates, wrote a vector for no time at all

---
 pymbs/input/mbs_system.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 1333d6e..f5b0db0 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -1859,10 +1859,16 @@ class MbsSystem(Body):
                     "needed function inside this file not found! Something went "\
                     "wrong during code generation.\n%s" % (modelname, err)) from err
 
+        q0 = list(q0)
+        nq = len(self.state.q)
+        if len(q0) != nq:
+            raise PyMbsError("%d initial conditions are given, but the model has "\
+                "%d coordinates: %s" % (len(q0), nq, self.state.q))
+
         qd0 = list(np.zeros(len(q0)))
         integrator = Integrator(mod_der_state, q0, qd0)
         curr_time = 0
-        values = np.array(q0 + qd0)
+        values = np.array([q0 + qd0])
         while curr_time < t:
             q = integrator.step()
             curr_time = integrator.t
-- 
2.43.0


From c7dafb2a12f4b9cac706fa934d15a82739c926c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 66/96] fix: crank slider loops could not be derived, were not
 recognised with swapped ends, and moved the slider the wrong way

---
 pymbs/processing/loops/crank_slider.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..a90d639 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -61,7 +61,7 @@ class CrankSlider(Loop):
         if j2.coordSys.parentBody.joint is None:
             j1 = csBb.parentBody.joint
             j2 = csBa.parentBody.joint
-            j3 = j1.coordSys.parentBody.joint
+            j3 = j2.coordSys.parentBody.joint
             csB1 = csBb
             csB2 = csBa
         else:
@@ -221,11 +221,11 @@ class CrankSlider(Loop):
         # Length of bars
         l1_vec = self.csB1.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)[0]))
+        l1 = graph.addEquation(L1 % self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
 
         l2_vec = self.csB2.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)[0]))
+        l2 = graph.addEquation(L2 % self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
 
         # Calculate v
         alpha = graph.addEquation(AL % self.name, asin((l1/l2)*sin(q1)))
@@ -235,9 +235,9 @@ class CrankSlider(Loop):
 
         alphad = q3d
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
+        b_prime = Matrix([-l1*q1d*(-2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha-q1))/(2*cos(alpha)*cos(alpha)),
                           (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From 5dfa8312ecc747d0162e9aab6085ba7c1722d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 67/96] fix: velocities and accelerations of hexapod legs did
 not belong to their positions

---
 pymbs/processing/loops/hexapod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loops/hexapod.py b/pymbs/processing/loops/hexapod.py
index 6aad9c8..e587b60 100644
--- a/pymbs/processing/loops/hexapod.py
+++ b/pymbs/processing/loops/hexapod.py
@@ -219,7 +219,8 @@ class Hexapod(Loop):
 
         # assign dependent coordinates
         v0 = l_Zyl
-        v1 = Alpha_Zyl
+        v1 = -Alpha_Zyl     # the equations below count this angle the other way round
+        v1d = -v1d
         v2 = Beta_Zyl
 
         # geometric parameters of base platform (bp) and tool platform (tp)
@@ -244,4 +245,5 @@ class Hexapod(Loop):
         (-tpx*u3d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u3d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + 2*tpx*u3d*u4d*sin(u3)*cos(u4)*cos(u5)*cos(v1) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*cos(v1) + 2*tpx*u3d*u5d*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(v1)*cos(u4)*cos(u5) - 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v1) + 2*tpx*u4d*u5d*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpx*u5d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u5d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u5d**2*sin(v1)*cos(u4)*cos(u5) - tpy*u3d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*cos(u4)*cos(v1) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*cos(u5)*cos(v1) - 2*tpy*u3d*u5d*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u5)*sin(v1)*cos(u4) - 2*tpy*u4d*u5d*sin(u4)*sin(v1)*cos(u5) + 2*tpy*u4d*u5d*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u5d**2*sin(u5)*sin(v1)*cos(u4) - tpz*u3d**2*cos(u3)*cos(u4)*cos(v1) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*cos(v1) + tpz*u4d**2*sin(u4)*sin(v1) - tpz*u4d**2*cos(u3)*cos(u4)*cos(v1) + 2*v0*v1d*v2d*sin(v2) - 2*v0d*v1d*cos(v2))/(v0*cos(v2)),
         -(tpx*u3d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u3d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u3d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u3d**2*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u4d*sin(u3)*sin(v1)*sin(v2)*cos(u4)*cos(u5) - 2*tpx*u3d*u4d*cos(u3)*cos(u4)*cos(u5)*cos(v2) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*sin(v1)*sin(v2) + 2*tpx*u3d*u5d*sin(u3)*cos(u5)*cos(v2) + 2*tpx*u3d*u5d*sin(u4)*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u4d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) + tpx*u4d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) - tpx*u4d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) + 2*tpx*u4d*u5d*sin(u3)*sin(u5)*cos(u4)*cos(v2) + 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v2)*cos(v1) + 2*tpx*u4d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3)*cos(u4) + tpx*u5d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u5d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u5d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u5d**2*sin(u5)*cos(u3)*cos(v2) - tpx*u5d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u3d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u3d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u3d**2*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*sin(v1)*sin(v2)*cos(u4) + 2*tpy*u3d*u4d*sin(u5)*cos(u3)*cos(u4)*cos(v2) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*sin(v1)*sin(v2)*cos(u5) - 2*tpy*u3d*u5d*sin(u3)*sin(u5)*cos(v2) + 2*tpy*u3d*u5d*sin(u4)*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3) - tpy*u4d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u4d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u4d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + 2*tpy*u4d*u5d*sin(u3)*cos(u4)*cos(u5)*cos(v2) + 2*tpy*u4d*u5d*sin(u4)*sin(v2)*cos(u5)*cos(v1) + 2*tpy*u4d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u4)*cos(u5) - tpy*u5d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u5d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u5d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u5d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + tpy*u5d**2*cos(u3)*cos(u5)*cos(v2) - tpz*u3d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u3d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*sin(v1)*sin(v2) - 2*tpz*u3d*u4d*sin(u4)*cos(u3)*cos(v2) - tpz*u4d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u4d**2*sin(u4)*sin(v2)*cos(v1) - tpz*u4d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + v0*v1d**2*sin(v2)*cos(v2) - 2*v0d*v2d*sin(v1)**2*cos(v2)**2 + 2*v0d*v2d*sin(v1)**2 - 2*v0d*v2d*cos(v1)**2*cos(v2)**2 + 2*v0d*v2d*cos(v1)**2 + 2*v0d*v2d*cos(v2)**2)/v0,        ])
 
-        return ([v0,v1,v2],Bvu,b_prime)
\ No newline at end of file
+        turn = Matrix([[1,0,0],[0,-1,0],[0,0,1]])
+        return ([v0,Alpha_Zyl,v2],turn*Bvu,turn*b_prime)
\ No newline at end of file
-- 
2.43.0


From 9e56facc6210331ba532d5fc0ebc3ac76606ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 68/96] fix: four bar linkages with joints at different heights
 did not close

---
 pymbs/processing/loops/fourbar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index 62b58d3..f9f0692 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -176,22 +176,22 @@ class FourBar(Loop):
         # Length of bars and angle between x-axis and bar
         l1_vec = self.jD.coordSys.p - self.jA.coordSys.p
         l1_vec2 = self.pick*l1_vec
-        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec)*l1_vec)))
+        l1 = graph.addEquation(L1%self.name, sqrt((transpose(l1_vec2)*l1_vec2)))
         alpha = graph.addEquation(AL%self.name, s*atan2(l1_vec2[1],l1_vec2[0]))
 
         l2_vec = self.jB.coordSys.p
         l2_vec2 = self.pick*l2_vec
-        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec)*l2_vec)))
+        l2 = graph.addEquation(L2%self.name, sqrt((transpose(l2_vec2)*l2_vec2)))
         beta = graph.addEquation(BE%self.name, s*atan2(l2_vec2[1],l2_vec2[0]))
 
         l3_vec = self.csC3.p
         l3_vec2 = self.pick*l3_vec
-        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec)*l3_vec)))
+        l3 = graph.addEquation(L3%self.name, sqrt((transpose(l3_vec2)*l3_vec2)))
         gamma = graph.addEquation(GA%self.name, s*atan2(l3_vec2[1],l3_vec2[0]))
 
         l4_vec = self.csC4.p
         l4_vec2 = self.pick*l4_vec
-        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec)*l4_vec)))
+        l4 = graph.addEquation(L4%self.name, sqrt((transpose(l4_vec2)*l4_vec2)))
         delta = graph.addEquation(DE%self.name, s*atan2(l4_vec2[1],l4_vec2[0]))
 
         # angle between bars
-- 
2.43.0


From 166f82453fd911cfcd11c43b9b196a6788a17750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 69/96] fix: loops with aligned links gave nan

---
 pymbs/processing/loops/fourbar.py        | 2 +-
 pymbs/processing/loops/fourbar_trans.py  | 2 +-
 pymbs/processing/loops/threebar_trans.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/loops/fourbar.py b/pymbs/processing/loops/fourbar.py
index f9f0692..95db234 100644
--- a/pymbs/processing/loops/fourbar.py
+++ b/pymbs/processing/loops/fourbar.py
@@ -209,7 +209,7 @@ class FourBar(Loop):
 
         # Calculate v
         theta_prime = graph.addEquation(THETA%self.name, 2*atan((P5-self.posture*sqrt(P4**2+P5**2-P6**2))/(P4-P6)))
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (theta_prime + beta - gamma)
diff --git a/pymbs/processing/loops/fourbar_trans.py b/pymbs/processing/loops/fourbar_trans.py
index e9f322b..505a0ff 100644
--- a/pymbs/processing/loops/fourbar_trans.py
+++ b/pymbs/processing/loops/fourbar_trans.py
@@ -232,7 +232,7 @@ class FourBarTrans(Loop):
         P2 = graph.addEquation(B%self.name, -2*l2*l4*sin(phi_prime))
         P3 = graph.addEquation(C%self.name, l1**2+l2**2-l3**2+l4**2-2*l1*l2*cos(phi_prime))
 
-        psi_prime = graph.addEquation(PSI%self.name, ((l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime))/abs(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime)))*acos((l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1)/l4))
+        psi_prime = graph.addEquation(PSI%self.name, atan2(l2*sin(phi_prime)+l3*sin(phi_prime+theta_prime), l2*cos(phi_prime)+l3*cos(phi_prime+theta_prime)-l1))
 
         v1 = (psi_prime + alpha - delta)
         v0 = (l4)
diff --git a/pymbs/processing/loops/threebar_trans.py b/pymbs/processing/loops/threebar_trans.py
index 9271fc4..6ad0683 100644
--- a/pymbs/processing/loops/threebar_trans.py
+++ b/pymbs/processing/loops/threebar_trans.py
@@ -207,7 +207,7 @@ class ThreeBarTrans(Loop):
 
         # Calculate v
         l3 = graph.addEquation(L3%self.name, sqrt(l1**2+l2**2-2*l1*l2*cos(phi_prime)))
-        psi_prime = graph.addEquation(PSI%self.name, pi-sin(phi_prime)/abs(sin(phi_prime))*acos((l1**2+l3**2-l2**2)/(2*l1*l3)))
+        psi_prime = graph.addEquation(PSI%self.name, pi+atan2(-l2*sin(phi_prime), l1-l2*cos(phi_prime)))
 
 
         # TODO: qsi_prime, psi
-- 
2.43.0


From 1dcb12cb110dbbc538aad82fee5d60f3cc22176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 70/96] fix: recordings could not be made, contained samples of
 previous ones and were lost when the window was closed

---
 pymbs/ui/gui.py         |  3 +-
 pymbs/ui/pi_recorder.py | 69 +++++++++++++++++++++++++----------------
 2 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 7e3c942..55b2d3e 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -1445,9 +1445,10 @@ class Gui(QMainWindow, pymbsMainWindow):
     def closeEvent(self, event):
         """
         Overload closeEvent to stop simulation, in case it was running
-        when the window was closed
+        when the window was closed. A recording in progress is saved.
         """
         self.stopSimulation()
+        self.recorder.stop()
         event.accept()
 
 
diff --git a/pymbs/ui/pi_recorder.py b/pymbs/ui/pi_recorder.py
index a044072..99d8777 100644
--- a/pymbs/ui/pi_recorder.py
+++ b/pymbs/ui/pi_recorder.py
@@ -77,14 +77,11 @@ class PIRecorder(object):
         Create emtpy dicitonary to save new data.
         '''
 
-        state, sensors = self.getData()
-
-        # create dicitionary for PI-data (uses name of the sensor)
-        self.sensors = {'state':[][:]}
+        # samples of the state vector
+        self.states = []
 
-        for i in sensors:
-            if i.startswith('r_'):
-                self.sensors[i[2:]] = [][:]
+        # dicitionary for PI-data (uses name of the sensor)
+        self.sensors = {}
 
         # start time reference
         self.startTime = None
@@ -99,22 +96,31 @@ class PIRecorder(object):
         # get data and time
         state, sensors = self.getData()
 
-        curTime = time.time()-self.startTime
+        # nothing has been displayed yet
+        if state is None:
+            return
+
+        # the wall clock may be adjusted while recording
+        curTime = time.monotonic()-self.startTime
 
         # save state
-        self.sensors['state'].append([curTime]+state)
+        self.states.append([curTime]+list(state))
 
         # save PI-data
         for i in sensors:
 
-            _curSet = [curTime]
             _name = i[2:]
 
             if i.startswith('r_'):
-                _curSet.extend(sensors[i].flatten().tolist()[0])
-                _curSet.extend(sensors['T_%s'%_name].flatten().tolist()[0])
+                r = numpy.asarray(sensors[i], dtype=float)
+                T = numpy.asarray(sensors['T_%s'%_name], dtype=float)
+
+                # constant orientation (graph generates T = 1)
+                if T.ndim == 0:
+                    T = T*numpy.eye(3)
 
-                self.sensors[_name].append(_curSet)
+                _curSet = [curTime] + r.flatten().tolist() + T.flatten().tolist()
+                self.sensors.setdefault(_name, []).append(_curSet)
 
 
 
@@ -137,7 +143,10 @@ class PIRecorder(object):
         Begin recording.
         '''
 
-        self.startTime = time.time()
+        # do not continue a previous recording
+        self.reset()
+
+        self.startTime = time.monotonic()
         self.timer.start()
 
 
@@ -147,8 +156,12 @@ class PIRecorder(object):
         Stop recording and save data to file
         '''
 
+        if self.startTime is None:
+            return
+
         # stop actual recording
         self.timer.stop()
+        self.startTime = None
 
         # create directory for pid files
         timestamp = datetime.datetime.now()
@@ -159,22 +172,26 @@ class PIRecorder(object):
                                          timestamp.minute,
                                          timestamp.second)
 
-        os.mkdir('pi_record_%s' % timestr)
+        # there may be another recording of the same second
+        dirname = 'pi_record_%s' % timestr
+        number = 1
+        while os.path.exists(dirname):
+            number += 1
+            dirname = 'pi_record_%s_%i' % (timestr, number)
 
-        # save PI-data as csv (one file per object)
-        for i in self.sensors:
-            data = numpy.asarray(self.sensors[i])
+        os.mkdir(dirname)
 
-            # state is not a position input!
-            if i== 'state':
-                ext = 'txt'
-            else:
-                ext = 'pid'
+        # save state (which is not a position input!)
+        numpy.savetxt('%s/state.txt' % dirname, numpy.asarray(self.states),
+                      delimiter=';', fmt='%.3f')
 
-            numpy.savetxt('pi_record_%s/%s.%s' % (timestr, i,ext),
-                           data, delimiter=';', fmt='%.3f')
+        # save PI-data as csv (one file per object)
+        for i in self.sensors:
+            numpy.savetxt('%s/%s.pid' % (dirname, i),
+                          numpy.asarray(self.sensors[i]),
+                          delimiter=';', fmt='%.3f')
 
         print('position inputs saved')
 
         # clean up
-        self.reset
\ No newline at end of file
+        self.reset()
-- 
2.43.0


From b74d9e552719d7cffc64c89ac0f2f0d8ad2b9ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 71/96] fix: result files could not be loaded, were played too
 early and by the wrong thread

---
 pymbs/ui/gui.py           | 150 ++++++++++++++++++++++++++++----------
 pymbs/ui/matlab_player.py |  74 ++++++++++++-------
 2 files changed, 159 insertions(+), 65 deletions(-)

diff --git a/pymbs/ui/gui.py b/pymbs/ui/gui.py
index 55b2d3e..9a3155d 100644
--- a/pymbs/ui/gui.py
+++ b/pymbs/ui/gui.py
@@ -803,6 +803,14 @@ class Gui(QMainWindow, pymbsMainWindow):
         initVals = self.graph.getinitVal(q)
         self.q = initVals
         self.qChanged = True
+
+        # results to be played, its current sample, and whether it was the last
+        self.ResultPlayer = None
+        self.poses = None
+        self.posesChanged = False
+        self.resultsBegin = False
+        self.resultsEnded = False
+
         self.updateSceneTimer.start()
 
         # Create sliders for genCoords
@@ -1094,8 +1102,7 @@ class Gui(QMainWindow, pymbsMainWindow):
 
         # Stop Playing of Results
         if (self.playResultsButton.isChecked()):
-            self.playResultsButton.setChecked(False)
-            self.ResultThread.stop()
+            self.stopResults()
             self.resetResults()
 
         if self.simulateButton.isChecked():
@@ -1113,6 +1120,7 @@ class Gui(QMainWindow, pymbsMainWindow):
 
             # waits for the last step of a previous run
             self.SimThread.reinit()
+            self.posesChanged = False
             self.integrator = Integrator(self.mod_der_state, q0, qd0)
             self.SimThread.start()
         else:
@@ -1154,14 +1162,24 @@ class Gui(QMainWindow, pymbsMainWindow):
     def loadResults(self):
 
         # load results and play them
-        fileName = QFileDialog.getOpenFileName(self, 'Open MATLAB Result File', '',
-                                               ("MATLAB mat-Files (*.mat)"))
+        fileName, _ = QFileDialog.getOpenFileName(self, 'Open MATLAB Result File', '',
+                                                  ("MATLAB mat-Files (*.mat)"))
         fileName = str(fileName)
         if (fileName == ''):
             return
 
         # Create MATLAB Player
-        self.ResultPlayer = MatlabPlayer(str(fileName),vtkObjects=self.vtkObjects)
+        try:
+            player = MatlabPlayer(fileName,vtkObjects=self.vtkObjects)
+            if (not player.isModelica and player.nq < self.nq):
+                raise IOError('result file contains %i states, the model has %i'
+                              %(player.nq, self.nq))
+        except Exception as err:
+            print("Could not load results from '%s': %s %s"%(fileName, type(err).__name__, err), file=sys.stderr)
+            return
+
+        self.stopResults()
+        self.ResultPlayer = player
 
         # Enable Play Button
         self.playResultsButton.setEnabled(True)
@@ -1180,41 +1198,79 @@ class Gui(QMainWindow, pymbsMainWindow):
 
         # ReInit Thread if already running
         if (self.playResultsButton.isChecked()):
-            # Start pymbs Thread
-            self.ResultThread.reinit()
+            try:
+                scaling = float(self.scale.text())
+            except ValueError:
+                print("RealTime Scaling must be a number, not '%s'"%self.scale.text(), file=sys.stderr)
+                self.playResultsButton.setChecked(False)
+                return
 
-            p1 = self.ResultPlayer.get('%s[%s]'%(str(self.vtkObjects[0].r),str(1)))
-            p2 = self.ResultPlayer.get('%s[%s]'%(str(self.vtkObjects[0].r),str(2)))
-            p3 = self.ResultPlayer.get('%s[%s]'%(str(self.vtkObjects[0].r),str(3)))
-            cp = self.ren.GetActiveCamera().GetPosition()
-            self.cammpos = [cp[0]-p1,cp[1]-p2,cp[2]-p3]
+            if (self.ResultPlayer.isModelica):
+                p = self.ResultPlayer.getPoses()[str(self.vtkObjects[0].r[0])]
+                cp = self.ren.GetActiveCamera().GetPosition()
+                self.cammpos = [cp[i]-p[i,0] for i in range(3)]
 
-            fp = self.ren.GetActiveCamera().GetFocalPoint()
-            self.focuspos = [fp[0]-p1,fp[1]-p2,fp[2]-p3]
+                fp = self.ren.GetActiveCamera().GetFocalPoint()
+                self.focuspos = [fp[i]-p[i,0] for i in range(3)]
 
-            self.ResultThread.scaling = float(self.scale.text())
+            # Start pymbs Thread
+            self.ResultThread.reinit()
+            self.ResultThread.scaling = scaling
+            self.resultsBegin = True
+            self.resultsEnded = False
             self.ResultThread.start()
 
         else:
-            self.ResultThread.stop()
+            self.stopResults()
 
 
 
-    def playResults(self):
+    def stopResults(self):
+        '''
+        Stop playing results. Upon return no further sample is displayed.
+        '''
+        self.playResultsButton.setChecked(False)
+        self.ResultThread.stop()
+        if self.ResultThread.is_alive():
+            self.ResultThread.join()
+        self.resultsEnded = False
+
 
+
+    def showSample(self):
+        '''
+        Display the current sample of the results. The scene itself is updated
+        by self.updateSceneTimer
+        '''
         if (self.ResultPlayer.isModelica):
-            self.updateSceneModelica()
+            self.qChanged = False
+            self.poses = self.ResultPlayer.getPoses()
+            self.posesChanged = True
         else:
             # get State Vector
-            # updateScene called by self.updateSceneTimer
+            self.posesChanged = False
             self.q = self.ResultPlayer.getState()
             self.qChanged = True
 
+
+
+    def playResults(self):
+        '''
+        Display the current sample, return the time of the next one. Called by
+        self.ResultThread, i.e. widgets must not be used.
+        '''
+        self.showSample()
+
+        # the following samples are due relative to the first one
+        if (self.resultsBegin):
+            self.resultsBegin = False
+            return self.ResultPlayer.getTime()
+
         # next frame
         if (not self.ResultPlayer.nextSample()):
-            self.playResultsButton.setChecked(False)
+            # the window is reset by self.updateSceneTimer
             self.ResultThread.stop()
-            self.resetResults()
+            self.resultsEnded = True
             return 0
 
         # return time
@@ -1227,15 +1283,20 @@ class Gui(QMainWindow, pymbsMainWindow):
         if (self.ResultPlayer is None):
             return
 
+        # start over again while playing
+        playing = self.playResultsButton.isChecked()
+        if playing:
+            self.stopResults()
+
         self.ResultPlayer.reset()
 
-        if (self.ResultPlayer.isModelica):
-            self.updateSceneModelica()
-        else:
-            # get State Vector
-            # updateScene called by self.updateSceneTimer
-            self.q = self.ResultPlayer.getState()
-            self.qChanged = True
+        # a running simulation is not disturbed
+        if (not self.simulateButton.isChecked()):
+            self.showSample()
+
+        if playing:
+            self.playResultsButton.setChecked(True)
+            self.startPlayingResults()
 
 
 
@@ -1253,28 +1314,28 @@ class Gui(QMainWindow, pymbsMainWindow):
 
     def updateSceneModelica(self):
 
+        poses = self.poses
+
         for obj in self.vtkObjects:
             poke = vtkMatrix4x4()
 
-            T = str(obj.T)
-            r = str(obj.r)
+            T = poses[str(obj.T[0])]
+            r = poses[str(obj.r[0])]
 
             # copy values from T
             for i in range(3):
-                poke.SetElement(i,3,self.ResultPlayer.get('%s[%s]'%(r,str(i+1))))
+                poke.SetElement(i,3,r[i,0])
                 for j in range(3):
-                    poke.SetElement(i,j,self.ResultPlayer.get('%s[%s,%s]'%(T,str(i+1),str(j+1))))
+                    poke.SetElement(i,j,T[i,j])
 
             obj.actor.PokeMatrix(poke)
             obj.actor.SetScale(obj.scale)
 
         if (self.trackNode.	isChecked ()):
             if (self.cammpos is not None):
-                p1 = self.ResultPlayer.get('%s[%s]'%(str(self.vtkObjects[0].r),str(1)))
-                p2 = self.ResultPlayer.get('%s[%s]'%(str(self.vtkObjects[0].r),str(2)))
-                p3 = self.ResultPlayer.get('%s[%s]'%(str(self.vtkObjects[0].r),str(3)))
-                newpos = [p1+ self.cammpos[0],p2+ self.cammpos[1],p3+ self.cammpos[2]]
-                newfpos = [p1+ self.focuspos[0],p2+ self.focuspos[1],p3+ self.focuspos[2]]
+                p = poses[str(self.vtkObjects[0].r[0])]
+                newpos = [p[i,0]+self.cammpos[i] for i in range(3)]
+                newfpos = [p[i,0]+self.focuspos[i] for i in range(3)]
                 self.ren.GetActiveCamera().SetPosition(newpos)
                 self.ren.GetActiveCamera().SetFocalPoint(newfpos)
 
@@ -1282,6 +1343,10 @@ class Gui(QMainWindow, pymbsMainWindow):
 
         self.VtkScene.Render()
 
+        # save sensor values for recorder, the state is not known
+        self.sensorValues = poses
+        self.sensorState = [float('nan')]*self.nq
+
 
 
     def updateScene(self):
@@ -1292,6 +1357,15 @@ class Gui(QMainWindow, pymbsMainWindow):
         if the state did not change.
         '''
 
+        # all samples of the results have been displayed
+        if self.resultsEnded:
+            self.stopResults()
+            self.resetResults()
+
+        if self.posesChanged:
+            self.posesChanged = False
+            self.updateSceneModelica()
+
         if not self.qChanged:
             return
 
@@ -1382,6 +1456,7 @@ class Gui(QMainWindow, pymbsMainWindow):
             return
 
         # Update Kinematics
+        self.posesChanged = False
         self.q = [i.stateVal/i.scale for i in self.sliders]
         self.qChanged = True
 
@@ -1448,6 +1523,7 @@ class Gui(QMainWindow, pymbsMainWindow):
         when the window was closed. A recording in progress is saved.
         """
         self.stopSimulation()
+        self.stopResults()
         self.recorder.stop()
         event.accept()
 
diff --git a/pymbs/ui/matlab_player.py b/pymbs/ui/matlab_player.py
index c254121..15d8077 100644
--- a/pymbs/ui/matlab_player.py
+++ b/pymbs/ui/matlab_player.py
@@ -19,7 +19,9 @@ class ModelicaDataItem(object):
 
         if (not isinstance(self.data,ndarray)):
             self.data = self.data.func(self.data.args[0],self.data.args[1])
-        return self.data[index,1]
+
+        # parameters and constants are given for the first and last time only
+        return self.data[min(index,len(self.data)-1),1]
 
 
 class MatlabPlayer(object):
@@ -85,13 +87,12 @@ class MatlabPlayer(object):
                'description' in channels and \
                'dataInfo' in channels:
 
-            self.isModelica = False
+            self.isModelica = True
             self.names = self._transformStringArrays(channels['name'])
             self.descr = self._transformStringArrays(channels['description'])
 
             if len(self.names) != len(channels['name'][0]):
-                #Modelica result file...
-                self.isModelica = True
+                #Open Modelica result file...
                 _names = list(channels['name'])
                 _descr = list(channels['description'])
                 required_len = len(_names[0])
@@ -109,8 +110,8 @@ class MatlabPlayer(object):
             names = list()
             for obj in self.vtkObjects:
 
-                names.append(str(obj.T))
-                names.append(str(obj.r))
+                names.extend(str(T) for T in obj.T)
+                names.extend(str(r) for r in obj.r)
 
             self.nameprefix = None
 
@@ -120,16 +121,10 @@ class MatlabPlayer(object):
                 name = str(self.names[i])
 
                 if (self.nameprefix == None):
-                    pos = name.find(names[0])
-                    if (pos > -1):
-                        if (pos > 0):
-                            if (name[pos-1]=='.'):
-                                if (len(names[0]) + pos == len(name)):
-                                    self.nameprefix = name[0:pos]
-                                if (name[pos+len(names[0])] == '['):
-                                    self.nameprefix = name[0:pos]
-                        else:
-                            self.nameprefix = name[0:pos]
+                    # the model may be a component of another one
+                    prefix, dot, last = name.split('[')[0].rpartition('.')
+                    if (last in names and '(' not in prefix):
+                        self.nameprefix = prefix + dot
 
 
                 #namePath = self.names[i].split('.')
@@ -150,6 +145,9 @@ class MatlabPlayer(object):
 
                 self.data[name] = ModelicaDataItem(name,data)
 
+            if (self.nameprefix is None):
+                raise IOError('result file does not contain any visualisation object of this model')
+
             self.nT = len(self.mat['data_2'][0]) - 1
 
         else:
@@ -161,7 +159,7 @@ class MatlabPlayer(object):
         get current Time
         '''
         if (self.isModelica is not None):
-            return self.data['time'].get(self.idxT)
+            return self.mat['data_2'][0][self.idxT]
         else:
             return self.T[0, self.idxT]
 
@@ -190,12 +188,13 @@ class MatlabPlayer(object):
         # targetfps specified
         tOld = self.getTime()
         t = tOld
-        while(t < (tOld + self.targetStepWidth)):
+        if (self.idxT >= self.nT):
+            return False
+
+        # the last sample is not skipped
+        while(t < (tOld + self.targetStepWidth) and self.idxT < self.nT):
             # increase index
-            if (self.idxT < self.nT):
-                self.idxT += 1
-            else:
-                return False
+            self.idxT += 1
 
             # obtain new time
             t = self.getTime()
@@ -211,17 +210,14 @@ class MatlabPlayer(object):
         '''
         Create a list containg all names/descriptions from arrays. The '\x00'
         are removed for Open Modelica result files.'''
-        _trans = [''.join(s).rstrip() for s in zip(*a)]
-        if self.isModelica:
-            _trans = [x.replace('\x00','') for x in _trans]
-        return _trans
+        return [''.join(s).replace('\x00','').rstrip() for s in zip(*a)]
 
     def _readData(self, block, column):
         '''Return an x,y - array of data for a variable.'''
         x = self.mat['data_%i' % block][0]
-        y = self.mat['data_%i' % block][abs(column)-1]
+        y = self.mat['data_%i' % block][abs(int(column))-1]
         if column < 0:
-            y *= -1
+            y = -y
         return array([x, y]).T
 
     def get(self, symbolname):
@@ -233,3 +229,25 @@ class MatlabPlayer(object):
             else:
                 return 0
         return 0
+
+
+    def getPoses(self):
+        '''
+        Positions and orientations of all visualisation objects at a specific
+        time (Modelica results only)
+        '''
+        values = {}
+
+        for obj in self.vtkObjects:
+            for r in obj.r:
+                # vectors are written as (3,1)-matrices
+                values[str(r)] = array([[self.get('%s[%i,1]'%(r,i)) or
+                                         self.get('%s[%i]'%(r,i))]
+                                        for i in range(1,4)])
+            for T in obj.T:
+                values[str(T)] = array([[self.get('%s[%i,%i]'%(T,i,j))
+                                         for j in range(1,4)]
+                                        for i in range(1,4)])
+
+        return values
+
-- 
2.43.0


From 7e0d970c6047dcd27fd38b4fa29c4d48c1126c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 72/96] fix: the zeroth power of a matrix was the scalar one,
 and was defined for non-square matrices

---
 symbolics/functions/Mul.cpp | 17 +++++++++++++++--
 symbolics/functions/Pow.cpp | 24 ++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index ddcd874..3c3dab8 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -67,6 +67,19 @@ std::string Mul::toString() const
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+// base**exponent * base
+static BasicPtr nextPower( BasicPtr const& base, BasicPtr const& exponent )
+/*****************************************************************************/
+{
+    BasicPtr next( Add::New(exponent, Int::getOne()) );
+    // the identity matrix, not the scalar one
+    if ((next == Int::getZero()) && !base->is_Scalar())
+        return Pow::New(base, next);
+    return BasicPtr(new Pow(base, next));
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Mul::simplify()
 /*****************************************************************************/
@@ -225,7 +238,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(lastarg);
             if (dst[i] == c->getBase())
-              lastarg = BasicPtr(new Pow(dst[i],Add::New(c->getExponent(),Int::getOne())));
+              lastarg = nextPower(dst[i],c->getExponent());
             else
             {
               addArg(lastarg->simplify());
@@ -236,7 +249,7 @@ BasicPtr Mul::simplify()
         {
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
-              lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+              lastarg = nextPower(lastarg,c->getExponent());
             else
             {
               addArg(lastarg->simplify());
diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index f3039cf..7abc694 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -5,6 +5,26 @@
 using namespace Symbolics;
 
 
+/*****************************************************************************/
+// base**0: one for scalars, the identity matrix for square matrices
+/*****************************************************************************/
+static BasicPtr zerothPower( BasicPtr const& base )
+/*****************************************************************************/
+{
+    Shape const& s = base->getShape();
+    if (s.getNumEl() == 1) return Int::getOne();
+    if (s.getDimension(1) != s.getDimension(2))
+        throw ShapeError("Pow is only defined for square matrices!");
+
+    Matrix *mat = new Matrix(s, true);
+    BasicPtr res(mat);
+    for (size_t i=0; i<s.getDimension(1); ++i)
+        mat->set(i, i, Int::getOne());
+    return res;
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 Pow::Pow( BasicPtrVec const& args ): BinaryOp(Type_Pow, args)
 /*****************************************************************************/
@@ -263,8 +283,8 @@ BasicPtr Pow::simplify()
 BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
-    // if arg2 == 0, then return One
-    if (arg2 == Zero::getZero() ) return Int::getOne();
+    // if arg2 == 0, then return One or the identity matrix
+    if (arg2 == Zero::getZero() ) return zerothPower(arg1);
     if (arg2 == Int::getOne() ) return arg1;
 
     // if we have a constant, then perform the calculation
-- 
2.43.0


From 2e6731514fc8c40aa83196104c45b7025c7ea2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 73/96] fix: integers too large for an int, given or
 calculated, silently took another value

---
 symbolics/Int.cpp             | 20 ++++++++++++++++++++
 symbolics/functions/Add.cpp   |  2 +-
 symbolics/functions/Mul.cpp   |  2 +-
 symbolics/include/Int.h       |  3 +++
 symbolics/wrapper/CNumber.cpp |  2 +-
 symbolics/wrapper/convert.cpp | 15 ++++++++++++++-
 6 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..fd19b60 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -1,4 +1,5 @@
 #include "Int.h"
+#include <limits.h>
 #include "Bool.h"
 #include "Util.h"
 #include "Operators.h"
@@ -46,6 +47,25 @@ BasicPtr Int::New( const int i)
 }
 /*****************************************************************************/
 
+/*****************************************************************************/
+bool Int::fits( const long long i)
+/*****************************************************************************/
+{
+    // the smallest int is left out, since it cannot be negated
+    return (i <= INT_MAX) && (i > INT_MIN);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+BasicPtr Int::New( const long long i)
+/*****************************************************************************/
+{
+    if (!fits(i))
+        return BasicPtr(new Real( static_cast<double>(i) ));
+    return Int::New( static_cast<int>(i) );
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  BasicPtr Int::iterateExp(Symbolics::Basic::Iterator &v)
 /*****************************************************************************/
diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 3b5024c..092dd9c 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -432,7 +432,7 @@ BasicPtr Add::New( BasicPtr const& lhs, BasicPtr const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()+crhs->getValue());
+            return Int::New(static_cast<long long>(clhs->getValue())+crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 3c3dab8..ca63acb 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -391,7 +391,7 @@ BasicPtr Mul::New( BasicPtr const& lhs, BasicPtr  const& rhs )
         if (rhs->getType() == Type_Int) 
         {
             const Int *crhs = Util::getAsConstPtr<Int>(rhs);
-            return Int::New(clhs->getValue()*crhs->getValue());
+            return Int::New(static_cast<long long>(clhs->getValue())*crhs->getValue());
         }
         else if (rhs->getType() == Type_Real) 
         {
diff --git a/symbolics/include/Int.h b/symbolics/include/Int.h
index e9d6b14..77cc6ab 100644
--- a/symbolics/include/Int.h
+++ b/symbolics/include/Int.h
@@ -23,6 +23,9 @@ namespace Symbolics
         ~Int();
 
         static BasicPtr New( const int i);
+        // an integer of any size: a Real if it does not fit into an Int
+        static BasicPtr New( const long long i);
+        static bool fits( const long long i);
 
         inline int getValue() const  { return m_value; };
 
diff --git a/symbolics/wrapper/CNumber.cpp b/symbolics/wrapper/CNumber.cpp
index 4597df3..4f5e85e 100644
--- a/symbolics/wrapper/CNumber.cpp
+++ b/symbolics/wrapper/CNumber.cpp
@@ -96,7 +96,7 @@ static int CNumber_init(CNumberObject *self, PyObject *args, PyObject *kwds)
 
 		// Ist es ein Int?
 		if (PyLong_Check(item))
-			self->m_basic = Int::New( PyLong_AsLong(item) );
+			self->m_basic = getBasic(item);
 		else if (PyFloat_Check(item))
 			self->m_basic = BasicPtr( new Real( PyFloat_AsDouble(item) ) );
 		else
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 57053d2..c4576a8 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -441,7 +441,20 @@ BasicPtr getBasic( PyObject *o )
     }
     // Type == int
     if (PyLong_Check(o))
-        return BasicPtr( new Int( PyLong_AsLong(o) ) );
+    {
+        int overflow = 0;
+        const long long i = PyLong_AsLongLongAndOverflow(o, &overflow);
+        if ((overflow == 0) && Int::fits(i))
+            return BasicPtr( new Int( static_cast<int>(i) ) );
+        // ints of any other size become a Real
+        const double d = PyLong_AsDouble(o);
+        if (PyErr_Occurred() != NULL)
+        {
+            PyErr_Clear();
+            throw InternalError("Integer is too large!");
+        }
+        return BasicPtr( new Real(d) );
+    }
     // Type == float
     if (PyFloat_Check(o))
         return BasicPtr( new Real( PyFloat_AsDouble(o) ) );
-- 
2.43.0


From 6ff3d3ff4db9199cd57d5ea1be7d6652422545be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 74/96] fix: indices outside of a matrix were accepted, and a
 slice with a step of zero used up all memory

---
 symbolics/wrapper/CBasic.cpp | 187 ++++++++++++++++++-----------------
 1 file changed, 96 insertions(+), 91 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 60b1f56..8e2cab4 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -481,6 +481,58 @@ static Py_ssize_t CBasic_len(CBasicObject *self)
 }
 /*****************************************************************************/
 
+// Einzelnen Index anhaengen, falls er in [0,length) liegt
+/*****************************************************************************/
+static bool addIndex( PyObject *index, const Py_ssize_t length, std::vector<int> &idx, const char *outside )
+/*****************************************************************************/
+{
+	const Py_ssize_t i = PyLong_AsSsize_t(index);
+	if ((i == -1) && PyErr_Occurred())
+		PyErr_Clear();	// groesser als jede Matrix
+	if ((i < 0) || (i >= length))
+	{
+		PyErr_SetString(SymbolicsError, outside);
+		return false;
+	}
+	idx.push_back(static_cast<int>(i));
+	return true;
+}
+/*****************************************************************************/
+
+
+// Alle Indizes eines Slices anhaengen, falls sie in [0,length) liegen
+/*****************************************************************************/
+static bool addSlice( PyObject *slice, const Py_ssize_t length, std::vector<int> &idx, const char *outside )
+/*****************************************************************************/
+{
+	Py_ssize_t start = 0, stop = 0, step = 1;
+	const int res = PySlice_GetIndices(slice, length, &start, &stop, &step);
+	if ((res < 0) && PyErr_Occurred())
+		return false;
+	if (step < 1)
+	{
+		PyErr_SetString(SymbolicsError, "The step of a slice must be positive!");
+		return false;
+	}
+	if (start > stop)
+		throw ShapeError("Slice seems strange start>stop?!");
+	if ((res < 0) || (start < 0))
+	{
+		PyErr_SetString(SymbolicsError, outside);
+		return false;
+	}
+	for (Py_ssize_t i=start; i<stop; i+=step)
+		idx.push_back(static_cast<int>(i));
+	if (idx.empty())
+	{
+		PyErr_SetString(SymbolicsError, "Slice is empty!");
+		return false;
+	}
+	return true;
+}
+/*****************************************************************************/
+
+
 // Get Index
 /*****************************************************************************/
 bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector<int> &n )
@@ -499,118 +551,71 @@ bool getIndex( PyObject *index, Shape const& s, std::vector<int> &m, std::vector
 	// Vektoren leeren
 	m.clear(); n.clear();
 
+	const char *outsideFirst = "First index out of bounds!";
+	const Py_ssize_t rows = s.getDimension(1);
+	const Py_ssize_t cols = s.getDimension(2);
+
 	// Index = Int
 	if (PyLong_Check(index))
-		m.push_back(PyLong_AsSsize_t(index));
-	else if (PySlice_Check(index))
+		return addIndex(index, rows*cols, m, outsideFirst);
+	if (PySlice_Check(index))
+		return addSlice(index, rows*cols, m, outsideFirst);
+
+	if (!PyTuple_Check(index))
 	{
-		// Slice "auspacken"
-		Py_ssize_t start, stop, step;
-		PySlice_GetIndices(index, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-		if (start > stop)
-      throw ShapeError("Slice seems strange start>stop?!");
-		for(int i=(int)start; i<(int)stop; i+=(int)step)
-			m.push_back(i);
+		PyErr_SetString(SymbolicsError, "Index must be either int or a tuple of ints!");
+		return false;
 	}
-	else if (PyTuple_Check(index))
-	{
-		// Index = Tuple
-		const size_t len = PyTuple_Size(index);
-		if (len == 0)
-		{
-			PyErr_SetString(SymbolicsError, "Got empty tuple of ints!");
-			return false;
-		}
-		if (len > 2)
-		{
-			PyErr_SetString(SymbolicsError, "Index tuple has more than two elements!");
-			return false;
-		}
-		// Ersten Int holen
-		PyObject *row = PyTuple_GetItem(index, 0);
-		if (PyLong_Check(row))
-			m.push_back(PyLong_AsSsize_t(row));
-		else if (PySlice_Check(row))
-		{
-			// Slice "auspacken"
-			Py_ssize_t start, stop, step;
-			if (len == 1)
-				PySlice_GetIndices(row, s.getDimension(1)*s.getDimension(2), &start, &stop, &step);
-			else
-				PySlice_GetIndices(row, s.getDimension(1), &start, &stop, &step);
-			if (start > stop) 
-        throw ShapeError("Slice seems strange start>stop?!");
-			for(int i=(int)start; i<(int)stop; i+=(int)step)
-				m.push_back(i);
-		}
-		else
-		{
-			PyErr_SetString(SymbolicsError, "First element in index tuple is no int!");
-			return false;
-		}
 
-		// Zweiten Int holen
-		if (len == 2)
-		{
-			// Zweiten Int holen
-			PyObject *col = PyTuple_GetItem(index, 1);
-			if (PyLong_Check(col))
-				n.push_back(PyLong_AsSsize_t(col));
-			else if (PySlice_Check(col))
-			{
-				// Slice "auspacken"
-				Py_ssize_t start, stop, step;
-				PySlice_GetIndices(col, s.getDimension(2), &start, &stop, &step);
-				if (start > stop) 
-          throw ShapeError("Slice seems strange start>stop?!");
-				for(int i=(int)start; i<(int)stop; i+=(int)step)
-					n.push_back(i);
-			}
-			else	
-			{
-				PyErr_SetString(SymbolicsError, "Second element in index tuple is no int!");
-				return false;
-			}
-		}
+	// Index = Tuple
+	const size_t len = PyTuple_Size(index);
+	if (len == 0)
+	{
+		PyErr_SetString(SymbolicsError, "Got empty tuple of ints!");
+		return false;
 	}
-	else
+	if (len > 2)
 	{
-		PyErr_SetString(SymbolicsError, "Index must be either int or a tuple of ints!");
+		PyErr_SetString(SymbolicsError, "Index tuple has more than two elements!");
 		return false;
 	}
 
-	// Shape vergleichen
-	if (m.size() < 1)
+	// Ersten Int holen
+	PyObject *row = PyTuple_GetItem(index, 0);
+	const Py_ssize_t length = (len == 1) ? rows*cols : rows;	// Als Vektor oder als Matrix
+	if (PyLong_Check(row))
+	{
+		if (!addIndex(row, length, m, outsideFirst)) return false;
+	}
+	else if (PySlice_Check(row))
 	{
-		PyErr_SetString(SymbolicsError, "No first index specified!");
+		if (!addSlice(row, length, m, outsideFirst)) return false;
+	}
+	else
+	{
+		PyErr_SetString(SymbolicsError, "First element in index tuple is no int!");
 		return false;
 	}
-	if (n.size() == 0)	// Als Vektor
+
+	// Zweiten Int holen
+	if (len == 2)
 	{
-		// Letztes, und damit groesstes m vergleichen
-		if (m[m.size()-1] >= static_cast<int>(s.getDimension(1)*s.getDimension(2)))
+		PyObject *col = PyTuple_GetItem(index, 1);
+		const std::string outsideSecond = "Second index out of bounds (" + str(s.getDimension(2)) + " columns)!";
+		if (PyLong_Check(col))
 		{
-			PyErr_SetString(SymbolicsError, "First index out of bounds!");
-			return false;
+			if (!addIndex(col, cols, n, outsideSecond.c_str())) return false;
 		}
-	}
-	else		// Als Matrix
-	{
-		// Letztes, und damit groesstes m vergleichen
-		if (m[m.size()-1] >= static_cast<int>(s.getDimension(1)))
+		else if (PySlice_Check(col))
 		{
-			PyErr_SetString(SymbolicsError, "First index out of bounds!");
-			return false;
+			if (!addSlice(col, cols, n, outsideSecond.c_str())) return false;
 		}
-	}
-
-	if (n.size() > 0)
-		if (n[n.size()-1] >= static_cast<int>(s.getDimension(2)))
+		else
 		{
-			std::string msg = "Second index out of bounds (" + str(n[n.size()-1]) + ">=" + str(s.getDimension(2)) + ")!";
-			PyErr_SetString(SymbolicsError, msg.c_str());
+			PyErr_SetString(SymbolicsError, "Second element in index tuple is no int!");
 			return false;
 		}
+	}
 
 	// Alles ok
 	return true;
-- 
2.43.0


From 3373294aafa9d137938664cff3f09eeffce55636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 75/96] fix: setting an element of a matrix changed expressions
 made with it earlier, deleting one crashed

---
 symbolics/wrapper/CBasic.cpp       | 80 ++++++++++++++++--------------
 symbolics/wrapper/convert.cpp      |  2 +
 symbolics/wrapper/include/CBasic.h |  1 +
 3 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index 8e2cab4..c9ba25a 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -168,7 +168,7 @@ PyTypeObject Symbolics::Python::CBasicObjectType = {
 /*****************************************************************************/
 // Konstruktor - C++
 /*****************************************************************************/
-Symbolics::Python::_CBasic_Object_::_CBasic_Object_()
+Symbolics::Python::_CBasic_Object_::_CBasic_Object_(): m_exclusive(false)
 /*****************************************************************************/
 {
 	// PyObject_Init(this, &CBasicObjectType);
@@ -458,6 +458,7 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
     {
 		// Simplify ausfuehren
 		self->m_basic = self->m_basic->simplify();
+		self->m_exclusive = false;
 
     self->ob_type = PyFactory::ObjectType(self->m_basic);
     
@@ -805,6 +806,13 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 	{
 		BasicPtr &basic = self->m_basic;
 
+		// Elemente lassen sich nicht loeschen
+		if (value == NULL)
+		{
+			PyErr_SetString(SymbolicsError, "Elements cannot be deleted!");
+			return -1;
+		}
+
 		// Index holen
 		std::vector<int> m;
 		std::vector<int> n;
@@ -833,51 +841,49 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 			throw ShapeError(msg.c_str());
 		}
 
-		// Zero in Matrix wandeln
-		if (basic->getType() == Type_Zero)
-		{
-			// Casten des Objektes fuer Python
-			self->ob_type = &CMatrixObjectType;
-			Py_INCREF(&CMatrixObjectType);
-			self->m_basic = BasicPtr( new Matrix( basic->getShape() ) );
-			basic = self->m_basic;
-		}
-
-		// Eye in Matrix wandeln
-		if (basic->getType() == Type_Eye)
-		{
-			// Casten des Objektes fuer Python
-			self->ob_type = &CMatrixObjectType;
-			Py_INCREF(&CMatrixObjectType);
-			Matrix *mat = new Matrix( sb );
-			self->m_basic = BasicPtr( mat );
-			basic = self->m_basic;
-			size_t min = sb.getDimension(1);
-			if (sb.getDimension(2) < min) min = sb.getDimension(2);
-			for(size_t i=0; i<min; ++i)
-				mat->set(i,i, Int::getOne());
-		}
-
-		// Matrix holen
-		Matrix* mat = Util::getAsPtr<Matrix>(self->m_basic);
-
-		// Wert(e) setzen
+		// Neue Werte bestimmen
+		BasicPtrVec values;
 		if (slicing(m,n))	// Slicing
 		{
 			for (size_t i=0; i<m.size(); ++i)
 				if (n.size() == 0)
-					mat->set(m[i], Element::New(b,i,0));
+					values.push_back( Element::New(b,i,0) );
 				else
 					for (size_t j=0; j<n.size(); ++j)
-						mat->set(m[i],n[j], Element::New(b,i,j));
+						values.push_back( Element::New(b,i,j) );
 		}
 		else				// Kein Slicing
-		{
-			if (n.size() > 0)
-				mat->set(m[0],n[0], b);
+			values.push_back(b);
+
+		// Andere Ausdruecke, die diese Matrix enthalten (auch b selbst), behalten ihren Wert,
+		// deshalb wird dann eine Kopie geaendert
+		BasicPtr newBasic;
+		if (basic->getType() != Type_Matrix)
+			newBasic = BasicPtr( new Matrix( basic->getShape() ) );
+		else if (!self->m_exclusive)
+			newBasic = BasicPtr( new Matrix( *Util::getAsConstPtr<Matrix>(basic) ) );
+		else
+			newBasic = basic;
+		Matrix *mat = Util::getAsPtr<Matrix>(newBasic);
+
+		// Einheitsmatrix
+		if (basic->getType() == Type_Eye)
+			for (size_t i=0; i<basic->getShape().getDimension(1); ++i)
+				mat->set(i,i, Int::getOne());
+
+		// Wert(e) setzen
+		size_t k = 0;
+		for (size_t i=0; i<m.size(); ++i)
+			if (n.size() == 0)
+				mat->set(m[i], values[k++]);
 			else
-				mat->set(m[0], b);
-		}
+				for (size_t j=0; j<n.size(); ++j)
+					mat->set(m[i],n[j], values[k++]);
+
+		// Casten des Objektes fuer Python
+		self->m_basic = newBasic;
+		self->m_exclusive = true;
+		self->ob_type = &CMatrixObjectType;
 
 		// Alles ok
 		return 0;
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index c4576a8..d25c926 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -437,6 +437,8 @@ BasicPtr getBasic( PyObject *o )
     if (PyType_IsSubtype(Py_TYPE(o), &Symbolics::Python::CBasicObjectType))
     {
         Symbolics::Python::CBasicObject* basic = reinterpret_cast<Symbolics::Python::CBasicObject*>(o);
+        // from now on, someone else may hold it as well
+        basic->m_exclusive = false;
         return basic->m_basic;
     }
     // Type == int
diff --git a/symbolics/wrapper/include/CBasic.h b/symbolics/wrapper/include/CBasic.h
index 7dd8af4..8be017c 100644
--- a/symbolics/wrapper/include/CBasic.h
+++ b/symbolics/wrapper/include/CBasic.h
@@ -15,6 +15,7 @@ namespace Symbolics
         {
         public:
             BasicPtr m_basic;
+            bool m_exclusive;   // no other object or expression refers to m_basic
             _CBasic_Object_();
 
         };
-- 
2.43.0


From f50aeabfbb11ada0baf0acbd4d7202ae22d20acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 76/96] fix: unusable arguments (dimensions, symbols to
 differentiate by, objects never initialised) crashed

---
 symbolics/functions/Inverse.cpp  |   2 +
 symbolics/functions/Jacobian.cpp |   2 +
 symbolics/wrapper/CBasic.cpp     | 146 ++++++++++++++++++-------------
 symbolics/wrapper/CSymbol.cpp    |   5 ++
 symbolics/wrapper/convert.cpp    |  27 +++++-
 5 files changed, 119 insertions(+), 63 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 72a8212..143f755 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -94,6 +94,8 @@ BasicPtr Inverse::New( BasicPtr const& arg )
     // Ist es ein Skalar?
     if (arg->is_Scalar())
         return arg;
+    if (arg->getShape().getDimension(1) != arg->getShape().getDimension(2))
+        throw InternalError("inv of " + arg->toString() + " is not definet");
 
     // simplify matrices
     switch(arg->getType())
diff --git a/symbolics/functions/Jacobian.cpp b/symbolics/functions/Jacobian.cpp
index b2c1c87..26a5e8f 100644
--- a/symbolics/functions/Jacobian.cpp
+++ b/symbolics/functions/Jacobian.cpp
@@ -103,6 +103,8 @@ BasicPtr Jacobian::New( BasicPtr const& exp, BasicPtr const& symbols)
     throw InternalError("Jacobian could only be used with Scalar or Vector as first argument!");
   if (!symbols->is_Vector())
     throw InternalError("Jacobian could only be used with Vector as second argument!");
+  if (symbols->getType() != Type_Matrix)
+    throw InternalError("Jacobian could only be used with a list of symbols as second argument!");
 
   Shape s(exp->getShape().getNumEl(), symbols->getShape().getNumEl());
 
diff --git a/symbolics/wrapper/CBasic.cpp b/symbolics/wrapper/CBasic.cpp
index c9ba25a..ed4e90c 100644
--- a/symbolics/wrapper/CBasic.cpp
+++ b/symbolics/wrapper/CBasic.cpp
@@ -394,7 +394,11 @@ static PyObject* CBasic_pow(PyObject *self, PyObject *other, PyObject *modulo)
         if (PyFloat_Check(other))
             exponent = PyFloat_AsDouble(other);
         else if (PyLong_Check(other))
-            exponent = PyLong_AsLong(other);
+        {
+            exponent = PyLong_AsDouble(other);
+            if (PyErr_Occurred() != NULL)
+                return NULL;
+        }
         else
         {
             PyErr_SetString(SymbolicsError, "Exponent must be a number!");
@@ -433,6 +437,18 @@ static PyObject* CBasic_neg(PyObject *arg)
 
 
 #pragma region Funktionen
+/*****************************************************************************/
+// Ein Objekt, dessen Konstruktor nicht (erfolgreich) durchlaufen wurde, hat keinen Ausdruck
+static BasicPtr& basicOf(CBasicObject *self)
+/*****************************************************************************/
+{
+	if (self->m_basic.get() == NULL)
+		throw InternalError("Object has not been initialised!");
+	return self->m_basic;
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 static PyObject* CBasic_shape(CBasicObject *self, PyObject *args)
 /*****************************************************************************/
@@ -440,7 +456,7 @@ static PyObject* CBasic_shape(CBasicObject *self, PyObject *args)
     try
     {
         // Shape holen
-        const Shape s = self->m_basic->getShape();
+        const Shape s = basicOf(self)->getShape();
         PyObject *shapeObj = fromShape(s);        
         // RefCount erhoehen und zurueckgeben
         return shapeObj;
@@ -457,7 +473,7 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
     try
     {
 		// Simplify ausfuehren
-		self->m_basic = self->m_basic->simplify();
+		self->m_basic = basicOf(self)->simplify();
 		self->m_exclusive = false;
 
     self->ob_type = PyFactory::ObjectType(self->m_basic);
@@ -476,9 +492,13 @@ static PyObject* CBasic_simplify(CBasicObject *self, PyObject *args)
 static Py_ssize_t CBasic_len(CBasicObject *self)
 /*****************************************************************************/
 {
-	// Shape zurueckgeben
-	Shape const& s = self->m_basic->getShape();
-	return s.getNumEl();
+	try
+	{
+		// Shape zurueckgeben
+		Shape const& s = basicOf(self)->getShape();
+		return s.getNumEl();
+	}
+	STD_ERROR_HANDLER(-1);
 }
 /*****************************************************************************/
 
@@ -695,7 +715,7 @@ static PyObject* CBasic_get(CBasicObject *self, PyObject *index)
 {
 	try
 	{
-		BasicPtr &basic = self->m_basic;
+		BasicPtr &basic = basicOf(self);
 		BasicPtr element;
 
 		// Index holen
@@ -804,7 +824,7 @@ static int CBasic_set(CBasicObject *self, PyObject *index, PyObject *value)
 {
 	try
 	{
-		BasicPtr &basic = self->m_basic;
+		BasicPtr &basic = basicOf(self);
 
 		// Elemente lassen sich nicht loeschen
 		if (value == NULL)
@@ -901,7 +921,7 @@ static PyObject* CBasic_cmp(CBasicObject *self, PyObject *other, int op)
 	try
 	{
 		// lhs und rhs holen
-		BasicPtr lhs( self->m_basic );
+		BasicPtr lhs( basicOf(self) );
 		BasicPtr rhs( getBasic(other) );
 
 		// op auswerten
@@ -961,27 +981,31 @@ static PyObject* CBasic_cmp(CBasicObject *self, PyObject *other, int op)
 PyObject* CBasic_atoms(CBasicObject *self, PyObject *args)
 /*****************************************************************************/
 {
-	// Atoms extrahieren
-	Basic::BasicSet atoms = self->m_basic->getAtoms();
-
-	// Atoms in Tule verpacken
-	PyObject *tuple = PyTuple_New( atoms.size() );
-	int i=0;
-	for (Basic::BasicSet::const_iterator it=atoms.begin(); it!=atoms.end(); it++)
+	try
 	{
-		// Atom holen
-		BasicPtr b(*it);
-		// In PyObject wandeln
-		PyObject *atom = PyFactory::New( b );
+		// Atoms extrahieren
+		Basic::BasicSet atoms = basicOf(self)->getAtoms();
+
+		// Atoms in Tule verpacken
+		PyObject *tuple = PyTuple_New( atoms.size() );
+		int i=0;
+		for (Basic::BasicSet::const_iterator it=atoms.begin(); it!=atoms.end(); it++)
+		{
+			// Atom holen
+			BasicPtr b(*it);
+			// In PyObject wandeln
+			PyObject *atom = PyFactory::New( b );
+			// RefCount erhoehen
+			Py_IncRef(atom);
+			// und in Tuple einfuegen
+			PyTuple_SetItem(tuple, i++, atom);
+		}
+
 		// RefCount erhoehen
-		Py_IncRef(atom);
-		// und in Tuple einfuegen
-		PyTuple_SetItem(tuple, i++, atom);
+		Py_IncRef(tuple);
+		return tuple;
 	}
-
-	// RefCount erhoehen
-	Py_IncRef(tuple);
-	return tuple;
+	STD_ERROR_HANDLER(NULL);
 }
 /*****************************************************************************/
 
@@ -990,46 +1014,50 @@ PyObject* CBasic_atoms(CBasicObject *self, PyObject *args)
 PyObject* CBasic_norm(CBasicObject *self, PyObject *args)
 /*****************************************************************************/
 {
-	// Referenz auf Basic holen
-	BasicPtr const& basic = self->m_basic;
-
-	// Nach Typ unterscheiden
-	switch (basic->getType())
+	try
 	{
-	case Type_Zero:		// Norm(0) = 0
-		return Py_BuildValue("i", 0);
-	case Type_Matrix:	// Norm(v) = sqrt(Summe(v_i*v_i))
+		// Referenz auf Basic holen
+		BasicPtr const& basic = basicOf(self);
+
+		// Nach Typ unterscheiden
+		switch (basic->getType())
 		{
-			// Auf Vektor pruefen
-			if (!basic->is_Vector())
+		case Type_Zero:		// Norm(0) = 0
+			return Py_BuildValue("i", 0);
+		case Type_Matrix:	// Norm(v) = sqrt(Summe(v_i*v_i))
 			{
-				PyErr_SetString(SymbolicsError, "norm() is only implemented for vectors!");
-				return NULL;
-			}
+				// Auf Vektor pruefen
+				if (!basic->is_Vector())
+				{
+					PyErr_SetString(SymbolicsError, "norm() is only implemented for vectors!");
+					return NULL;
+				}
 
-			// Matrix holen
-			const Matrix *mat = Util::getAsConstPtr<Matrix>(basic);
-			Shape const& s = mat->getShape();
+				// Matrix holen
+				const Matrix *mat = Util::getAsConstPtr<Matrix>(basic);
+				Shape const& s = mat->getShape();
 			
-			// Los gehts
-			BasicPtr normSquared( Int::getZero() );
-			for (size_t i=0; i<s.getNumEl(); ++i)
-			{
-				BasicPtr vi( mat->get(i) );
-				normSquared = normSquared + vi*vi;
-			}
+				// Los gehts
+				BasicPtr normSquared( Int::getZero() );
+				for (size_t i=0; i<s.getNumEl(); ++i)
+				{
+					BasicPtr vi( mat->get(i) );
+					normSquared = normSquared + vi*vi;
+				}
 
-			// Und die Wurzel ziehen
-			BasicPtr norm( Pow::New(normSquared, Real::New(0.5)) );
+				// Und die Wurzel ziehen
+				BasicPtr norm( Pow::New(normSquared, Real::New(0.5)) );
 
-			// Element zurueckgeben
-			PyObject *obj = PyFactory::New(norm);
-			Py_IncRef(obj);
-			return obj;
+				// Element zurueckgeben
+				PyObject *obj = PyFactory::New(norm);
+				Py_IncRef(obj);
+				return obj;
+			}
+		default:			// Da muss man sich mal Gedanken machen
+			PyErr_SetString(SymbolicsError, "norm() is only implemented for matrix types!");
+			return NULL;
 		}
-	default:			// Da muss man sich mal Gedanken machen
-		PyErr_SetString(SymbolicsError, "norm() is only implemented for matrix types!");
-		return NULL;
 	}
+	STD_ERROR_HANDLER(NULL);
 }
 /*****************************************************************************/
diff --git a/symbolics/wrapper/CSymbol.cpp b/symbolics/wrapper/CSymbol.cpp
index 0988f66..0649683 100644
--- a/symbolics/wrapper/CSymbol.cpp
+++ b/symbolics/wrapper/CSymbol.cpp
@@ -130,6 +130,11 @@ static void CSymbol_del(CSymbolObject *self)
 static long CSymbol_hash(CSymbolObject *self)
 /*****************************************************************************/
 {
+	if (self->m_basic.get() == NULL)
+	{
+		PyErr_SetString(SymbolicsError, "Object has not been initialised!");
+		return -1;
+	}
 	return self->m_basic->getHash();
 }
 /*****************************************************************************/
diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index d25c926..f83330f 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -1,6 +1,7 @@
 #include "convert.h"
 #define _USE_MATH_DEFINES
 #include <math.h>
+#include <limits.h>
 #include <iostream>
 #include "CBasic.h"
 #include "str.h"
@@ -289,6 +290,22 @@ std::vector< BasicPtr> toBasicVec( PyObject *o, Graph::Graph* &g )
 
 
 #pragma region Shape
+/*****************************************************************************/
+// Eine Dimension aus einem Python int
+/*****************************************************************************/
+static size_t toDimension( PyObject *o )
+/*****************************************************************************/
+{
+    const Py_ssize_t d = PyLong_AsSsize_t(o);
+    if ((d == -1) && PyErr_Occurred())
+        PyErr_Clear();
+    if ((d < 0) || (d > INT_MAX))
+        throw ShapeError("Dimensions must be positive and not too large!");
+    return static_cast<size_t>(d);
+}
+/*****************************************************************************/
+
+
 /*****************************************************************************/
 // Ein Tupel in einen Shape wandeln
 /*****************************************************************************/
@@ -301,7 +318,7 @@ Shape toShape( PyObject *tuple )
 	// Auf Int pruefen
 	if (PyLong_Check(tuple))
 	{
-		const size_t n = PyLong_AsSsize_t(tuple);
+		const size_t n = toDimension(tuple);
 		return Shape(n,n);
 	}
 
@@ -323,7 +340,7 @@ Shape toShape( PyObject *tuple )
             if (dim1 == NULL) throw InternalError("Internal Error: toShape(1)!");
             // Shape erstellen
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
-            return Shape( PyLong_AsSsize_t( dim1 ) );
+            return Shape( toDimension( dim1 ) );
         }
     case 2:
         {
@@ -336,7 +353,7 @@ Shape toShape( PyObject *tuple )
             // Shape erstellen
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
             if (!PyLong_Check(dim2)) throw InternalError("Internal Error: toShape - dim2 must be an integer!");
-            return Shape( PyLong_AsSsize_t( dim1 ), PyLong_AsSsize_t( dim2 ) );
+            return Shape( toDimension( dim1 ), toDimension( dim2 ) );
         }
 	case 3:
         {
@@ -353,7 +370,7 @@ Shape toShape( PyObject *tuple )
             if (!PyLong_Check(ndim)) throw InternalError("Internal Error: toShape - ndim must be an integer!");
             if (!PyLong_Check(dim1)) throw InternalError("Internal Error: toShape - dim1 must be an integer!");
             if (!PyLong_Check(dim2)) throw InternalError("Internal Error: toShape - dim2 must be an integer!");
-            return Shape( PyLong_AsSsize_t( ndim ), PyLong_AsSsize_t( dim1 ), PyLong_AsSsize_t( dim2 ) );
+            return Shape( toDimension( ndim ), toDimension( dim1 ), toDimension( dim2 ) );
         }
 
     default:
@@ -437,6 +454,8 @@ BasicPtr getBasic( PyObject *o )
     if (PyType_IsSubtype(Py_TYPE(o), &Symbolics::Python::CBasicObjectType))
     {
         Symbolics::Python::CBasicObject* basic = reinterpret_cast<Symbolics::Python::CBasicObject*>(o);
+        if (basic->m_basic.get() == NULL)
+            throw InternalError("Object has not been initialised!");
         // from now on, someone else may hold it as well
         basic->m_exclusive = false;
         return basic->m_basic;
-- 
2.43.0


From c81f5902e551d29752f233274ee4bb7cb3231044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 77/96] fix: simplifying without enough memory changed the
 value of expressions or broke them for good

---
 symbolics/Matrix.cpp                |  6 ++++--
 symbolics/SymmetricMatrix.cpp       |  6 ++++--
 symbolics/functions/Add.cpp         | 12 ++++++++++++
 symbolics/functions/Mul.cpp         | 12 ++++++++++++
 symbolics/functions/include/Add.h   |  1 +
 symbolics/functions/include/Mul.h   |  1 +
 symbolics/include/Basic.h           |  9 ++++++++-
 symbolics/include/Matrix.h          |  2 +-
 symbolics/include/NaryOp.h          | 14 ++++++++++++++
 symbolics/include/SymmetricMatrix.h |  2 +-
 10 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 59c2906..c31c1ea 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -3,6 +3,7 @@
 #include "str.h"
 #include "Operators.h"
 #include <sstream>
+#include <exception>
 
 
 #include <iostream>
@@ -672,12 +673,13 @@ Matrix::Inserter::Inserter(Matrix & matrix,  BasicPtr const& a): m_matrix(matrix
 
 
 /*****************************************************************************/
-Matrix::Inserter::~Inserter()
+Matrix::Inserter::~Inserter() noexcept(false)
 /*****************************************************************************/
 {
     // Index pruefen
     // Der Destruktor wird beim Uebergeben aus dem = aufgerufen, in diesem Fall ist m_counter == 1
-    if ((m_counter != 1) && (m_counter != m_matrix.getNumEl()))
+    // Wird der Destruktor wegen einer Exception aufgerufen, darf keine zweite dazu kommen
+    if ((m_counter != 1) && (m_counter != m_matrix.getNumEl()) && !std::uncaught_exceptions())
         throw IndexError("Numbers of right hand side arguments does not match shape! Expected " 
                             + str(m_matrix.getNumEl()) + " but got " + str(m_counter) );
 }
diff --git a/symbolics/SymmetricMatrix.cpp b/symbolics/SymmetricMatrix.cpp
index e9053a4..57dbb72 100644
--- a/symbolics/SymmetricMatrix.cpp
+++ b/symbolics/SymmetricMatrix.cpp
@@ -3,6 +3,7 @@
 #include "str.h"
 #include "Operators.h"
 #include <sstream>
+#include <exception>
 
 using namespace Symbolics;
 
@@ -399,12 +400,13 @@ SymmetricMatrix::Inserter::Inserter(SymmetricMatrix &mat,  BasicPtr &a): m_Symme
 
 
 /*****************************************************************************/
-SymmetricMatrix::Inserter::~Inserter()
+SymmetricMatrix::Inserter::~Inserter() noexcept(false)
 /*****************************************************************************/
 {
     // Index pruefen
     // Der Destruktor wird beim Uebergeben aus dem = aufgerufen, in diesem Fall ist m_counter == 1
-    if ((m_counter != 1) && (m_counter != m_SymmetricMatrix.getNumEl()))
+    // Wird der Destruktor wegen einer Exception aufgerufen, darf keine zweite dazu kommen
+    if ((m_counter != 1) && (m_counter != m_SymmetricMatrix.getNumEl()) && !std::uncaught_exceptions())
         throw IndexError("Numbers of right hand side arguments does not match shape! Expected " 
                             + str(m_SymmetricMatrix.getNumEl()) + " but got " + str(m_counter) );
 }
diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 092dd9c..d3f46f5 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -60,6 +60,18 @@ BasicPtr Add::simplify()
 {
     if (m_simplified)
         return BasicPtr(this);
+    Rollback rollback(*this);
+    BasicPtr res( simplifyArgsAndMerge() );
+    rollback.commit();
+    return res;
+}
+/*****************************************************************************/
+
+
+/*****************************************************************************/
+BasicPtr Add::simplifyArgsAndMerge()
+/*****************************************************************************/
+{
     // call arg
     simplifyArgs();
 
diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index ca63acb..7418418 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -86,6 +86,18 @@ BasicPtr Mul::simplify()
 {
     if (m_simplified)
         return BasicPtr(this);
+    Rollback rollback(*this);
+    BasicPtr res( simplifyArgsAndMerge() );
+    rollback.commit();
+    return res;
+}
+/*****************************************************************************/
+
+
+/*****************************************************************************/
+BasicPtr Mul::simplifyArgsAndMerge()
+/*****************************************************************************/
+{
     // call arg
     simplifyArgs();
 
diff --git a/symbolics/functions/include/Add.h b/symbolics/functions/include/Add.h
index 01a0792..2ca8037 100644
--- a/symbolics/functions/include/Add.h
+++ b/symbolics/functions/include/Add.h
@@ -23,6 +23,7 @@ namespace Symbolics
 
         // Vereinfachen, wenn unver�ndert, dann NULL
         BasicPtr simplify();
+        BasicPtr simplifyArgsAndMerge();
 
         // lhs + rhs
         static BasicPtr New(BasicPtr const& lhs, BasicPtr const& rhs);
diff --git a/symbolics/functions/include/Mul.h b/symbolics/functions/include/Mul.h
index ae7f819..037e4f8 100644
--- a/symbolics/functions/include/Mul.h
+++ b/symbolics/functions/include/Mul.h
@@ -25,6 +25,7 @@ namespace Symbolics
 
         // Vereinfachen, wenn unver�ndert, dann NULL
         BasicPtr simplify();
+        BasicPtr simplifyArgsAndMerge();
 
         static BasicPtr New(BasicPtr const& lhs,BasicPtr const& rhs);
 
diff --git a/symbolics/include/Basic.h b/symbolics/include/Basic.h
index 0aa9f25..f762478 100644
--- a/symbolics/include/Basic.h
+++ b/symbolics/include/Basic.h
@@ -231,7 +231,14 @@ namespace Symbolics
         // Destruktor
         ~Argument() { unregisterParent(); }
         // Argument
-        inline void setArg(BasicPtr const& arg) { if (m_arg.get() != NULL) m_arg->removeParent(this); m_arg = arg; m_arg->addParent(this); }
+        inline void setArg(BasicPtr const& arg)
+        {
+          if (m_arg.get() == arg.get()) return;
+          // only this can fail (if there is no memory left): nothing has happened then
+          arg->addParent(this);
+          if (m_arg.get() != NULL) m_arg->removeParent(this);
+          m_arg = arg;
+        }
         inline BasicPtr const& getArg() const { return m_arg; }
         // Parent
         inline void registerParent( Basic* parent ) { if(parent) m_parent = parent; }
diff --git a/symbolics/include/Matrix.h b/symbolics/include/Matrix.h
index 5d61743..d5d3b9c 100644
--- a/symbolics/include/Matrix.h
+++ b/symbolics/include/Matrix.h
@@ -129,7 +129,7 @@ namespace Symbolics
             // Konstruktor
             Inserter( Matrix & matrix,  BasicPtr const& a );
             // Destruktor
-            ~Inserter();
+            ~Inserter() noexcept(false);
             // , Operator �berladen
             Inserter& operator,( BasicPtr const& a);
             Inserter& operator,( int a);
diff --git a/symbolics/include/NaryOp.h b/symbolics/include/NaryOp.h
index 4b34f26..8905081 100644
--- a/symbolics/include/NaryOp.h
+++ b/symbolics/include/NaryOp.h
@@ -45,6 +45,20 @@ namespace Symbolics
         inline void addArg( BasicPtr const& arg ) { m_args.push_back(Argument(this,arg)); };
         inline void simplifyArgs() { for (size_t i=0; i<m_args.size(); ++i) setArg(i,m_args[i].getArg()->simplify()); };
         
+        // Puts the arguments back, unless commit() was called: an operation that fails halfway
+        // (e.g. because there is no memory left) must not leave a different expression behind
+        class Rollback
+        {
+        public:
+            Rollback( NaryOp &op ): m_op(op), m_saved(op.m_args), m_active(true) {;}
+            ~Rollback() { if (m_active) m_op.m_args.swap(m_saved); }
+            inline void commit() { m_active = false; };
+        private:
+            NaryOp &m_op;
+            ArgumentPtrVec m_saved;
+            bool m_active;
+        };
+
     private:
         // Arguments
         ArgumentPtrVec m_args;
diff --git a/symbolics/include/SymmetricMatrix.h b/symbolics/include/SymmetricMatrix.h
index 6f0f01a..3f901b6 100644
--- a/symbolics/include/SymmetricMatrix.h
+++ b/symbolics/include/SymmetricMatrix.h
@@ -53,7 +53,7 @@ namespace Symbolics
             // Konstruktor
             Inserter( SymmetricMatrix &constant,  BasicPtr &a );
             // Destruktor
-            ~Inserter();
+            ~Inserter() noexcept(false);
             // , Operator �berladen
             Inserter& operator,( BasicPtr &a);
             Inserter& operator,( int a);
-- 
2.43.0


From c8736bcb9aa17e69036edc4cb835ccb23d02effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 78/96] fix: scalar, skew, solve, powers and matrices accepted
 arguments of wrong shapes

---
 symbolics/functions/Pow.cpp          | 10 ++++++++++
 symbolics/functions/Scalar.cpp       | 17 ++++++++++++++---
 symbolics/functions/Skew.cpp         | 21 ++++++++++++++++-----
 symbolics/functions/Solve.cpp        | 22 +++++++++++++++++-----
 symbolics/functions/include/Pow.h    |  1 +
 symbolics/functions/include/Scalar.h |  1 +
 symbolics/functions/include/Skew.h   |  1 +
 symbolics/functions/include/Solve.h  |  1 +
 symbolics/wrapper/CMatrix.cpp        |  1 +
 9 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 7abc694..e4f5ae5 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -79,6 +79,15 @@ void Pow::validate()
     if ((getArg2()->getType() != Type_Int) && (getArg2()->getType() != Type_Real) && ((getArg2()->getType() != Type_Zero) && (getArg2()->is_Scalar())))
         throw InternalError("getArg2() must be either Int or Real!");
 
+    validate(s);
+}
+/*****************************************************************************/
+
+
+/*****************************************************************************/
+void Pow::validate( Shape const& s )
+/*****************************************************************************/
+{
     // Matrix
     if (s.getNrDimensions() == 2)
         if (s.getDimension(1) != s.getDimension(2))
@@ -291,6 +300,7 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     switch (arg1->getType()) 
     {
     case Type_Zero:
+        validate(arg1->getShape());
         return Zero::getZero(arg1->getShape());
     case Type_Int:
         {
diff --git a/symbolics/functions/Scalar.cpp b/symbolics/functions/Scalar.cpp
index edf6e8d..fe0c36a 100644
--- a/symbolics/functions/Scalar.cpp
+++ b/symbolics/functions/Scalar.cpp
@@ -41,11 +41,20 @@ void Scalar::validate()
 	// Scalar ist immer ein Skalar
     m_shape = Shape();
 
+    validate(getArg());
+}
+/*****************************************************************************/
+
+
+/*****************************************************************************/
+void Scalar::validate( BasicPtr const& arg )
+/*****************************************************************************/
+{
     // Argument muss skalar sein!
-    if ((getArg()->getShape().getDimension(1) != 1) ||
-        (getArg()->getShape().getDimension(2) != 1)) 
+    if ((arg->getShape().getDimension(1) != 1) ||
+        (arg->getShape().getDimension(2) != 1)) 
     {
-         std::string msg = "Internal Error: Scalar - Argument must be (1,1) but is " + getArg()->getShape().toString() + "!";
+         std::string msg = "Internal Error: Scalar - Argument must be (1,1) but is " + arg->getShape().toString() + "!";
         throw ShapeError(msg.c_str());
     }
 }
@@ -102,6 +111,8 @@ BasicPtr Scalar::simplify()
 BasicPtr Scalar::New(BasicPtr const& arg)
 /*****************************************************************************/
 {
+    validate(arg);
+
     // if constant move sign into value
     switch (arg->getType())
     {
diff --git a/symbolics/functions/Skew.cpp b/symbolics/functions/Skew.cpp
index 2f1fef1..8f29184 100644
--- a/symbolics/functions/Skew.cpp
+++ b/symbolics/functions/Skew.cpp
@@ -37,14 +37,23 @@ Skew::~Skew()
 void Skew::validate()
 /*****************************************************************************/
 {
-    // Skew ist f�r 0 und einen 3x1 Vektor definiert
-    if ( (getArg() != Zero::getZero()) && (getArg()->getShape() != Shape(3)) )
+    validate(getArg());
+    // Shape auf 3x3 festsetzen
+    m_shape = Shape(3,3);
+}
+/*****************************************************************************/
+
+
+/*****************************************************************************/
+void Skew::validate( BasicPtr const& arg )
+/*****************************************************************************/
+{
+    // Skew is only defined for 0 and a 3x1 vector
+    if ( !(arg->is_Scalar() && Util::is_Zero(arg)) && (arg->getShape() != Shape(3)) )
     {
-         std::string msg = "Skew is only defined for 3x1 Vectors! Shape of argument is " + getArg()->getShape().toString() + ".";
+         std::string msg = "Skew is only defined for 3x1 Vectors! Shape of argument is " + arg->getShape().toString() + ".";
         throw ShapeError( msg.c_str() );
     }
-    // Shape auf 3x3 festsetzen
-    m_shape = Shape(3,3);
 }
 /*****************************************************************************/
 
@@ -102,6 +111,8 @@ BasicPtr Skew::simplify()
 BasicPtr Skew::New( BasicPtr const& arg)
 /*****************************************************************************/
 {
+    validate(arg);
+
     // if zero, return zero
     if (Util::is_Zero(arg)) return Zero::getZero(Shape(3,3));
 
diff --git a/symbolics/functions/Solve.cpp b/symbolics/functions/Solve.cpp
index 0e4c21b..747635e 100644
--- a/symbolics/functions/Solve.cpp
+++ b/symbolics/functions/Solve.cpp
@@ -38,8 +38,20 @@ Solve::~Solve()
 void Solve::validate()
 /*****************************************************************************/
 {
-    Shape s1 = getArg1()->getShape();
-    Shape s2 = getArg2()->getShape();
+    validate(getArg1(), getArg2());
+    // Shape berechnen
+    m_shape = Shape(getArg1()->getShape().getDimension(2));
+}
+/*****************************************************************************/
+
+
+
+/*****************************************************************************/
+void Solve::validate( BasicPtr const& arg1, BasicPtr const& arg2 )
+/*****************************************************************************/
+{
+    Shape s1 = arg1->getShape();
+    Shape s2 = arg2->getShape();
     // arg1 Matrix or Scalar
     if (s1.getDimension(1) != s1.getDimension(2))
         throw ShapeError("Solve is only defined for square matrix as first argument!");
@@ -52,11 +64,9 @@ void Solve::validate()
     // arg1 equal dim arg2
     if (s1.getDimension(1) != s2.getDimension(1))
     {
-         std::string msg = "Solve: Dimension of Matrix " + s1.toString() + "does not fit dimension of Vector" + s2.toString() + "!" + getArg1()->toString() + "  " + getArg2()->toString();
+         std::string msg = "Solve: Dimension of Matrix " + s1.toString() + "does not fit dimension of Vector" + s2.toString() + "!" + arg1->toString() + "  " + arg2->toString();
         throw ShapeError(msg.c_str());
     }
-    // Shape berechnen
-    m_shape = Shape(s1.getDimension(2));
 }
 /*****************************************************************************/
 
@@ -107,6 +117,8 @@ BasicPtr Solve::simplify()
 BasicPtr Solve::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 {
+    validate(arg1, arg2);
+
     // b is zero
     if (Util::is_Zero(arg2))
     {
diff --git a/symbolics/functions/include/Pow.h b/symbolics/functions/include/Pow.h
index 8b5a3ae..b4dfbe3 100644
--- a/symbolics/functions/include/Pow.h
+++ b/symbolics/functions/include/Pow.h
@@ -38,6 +38,7 @@ namespace Symbolics
 
 	protected:
 		void validate();
+        static void validate( Shape const& shape );
     };
 
     typedef boost::intrusive_ptr< Pow> ConstPowPtr;
diff --git a/symbolics/functions/include/Scalar.h b/symbolics/functions/include/Scalar.h
index c3dc96e..ecaa0b8 100644
--- a/symbolics/functions/include/Scalar.h
+++ b/symbolics/functions/include/Scalar.h
@@ -29,6 +29,7 @@ namespace Symbolics
 
 	protected:
 		void validate();
+        static void validate( BasicPtr const& arg );
 
     };
 
diff --git a/symbolics/functions/include/Skew.h b/symbolics/functions/include/Skew.h
index 7ad9e13..706f11c 100644
--- a/symbolics/functions/include/Skew.h
+++ b/symbolics/functions/include/Skew.h
@@ -30,6 +30,7 @@ namespace Symbolics
 
 	protected:
 		void validate();
+        static void validate( BasicPtr const& arg );
     };
 
     typedef boost::intrusive_ptr< Skew> ConstSkewPtr;
diff --git a/symbolics/functions/include/Solve.h b/symbolics/functions/include/Solve.h
index 2a2c8e9..12b0c08 100644
--- a/symbolics/functions/include/Solve.h
+++ b/symbolics/functions/include/Solve.h
@@ -31,6 +31,7 @@ namespace Symbolics
     protected:
 
 		void validate();
+        static void validate( BasicPtr const& arg1, BasicPtr const& arg2 );
 
     };
 
diff --git a/symbolics/wrapper/CMatrix.cpp b/symbolics/wrapper/CMatrix.cpp
index d580e83..9f64a8f 100644
--- a/symbolics/wrapper/CMatrix.cpp
+++ b/symbolics/wrapper/CMatrix.cpp
@@ -199,6 +199,7 @@ void getElements( PyObject* arg, int level, int dim[], BasicPtrVec &elements )
 		// Wir haben einen Skalar
         BasicPtr a( getBasic(item) );
 		if (a.get() == NULL) throw InternalError("items in list must be in (int, float, CBasic)!");
+		if (a->getShape().getNumEl() != 1) throw InternalError("items in list must be scalar!");
 
 		// Der Liste hinzufuegen
 		elements.push_back(a);
-- 
2.43.0


From 20a10b1adbc1a839c08dabec933917826500d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 79/96] fix: If whose condition is constant accepted branches
 of different shapes

---
 symbolics/functions/If.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolics/functions/If.cpp b/symbolics/functions/If.cpp
index c4c09f5..9ce9e13 100644
--- a/symbolics/functions/If.cpp
+++ b/symbolics/functions/If.cpp
@@ -101,6 +101,10 @@ bool If::operator==(  Basic const& rhs ) const
 BasicPtr If::New( BasicPtr const& cond, BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
+    // Auch wenn die Bedingung feststeht, muessen die Zweige zueinander passen
+    if (arg1->getShape() != arg2->getShape())
+        throw InternalError("If then exp has different shape as else exp!");
+
     // check cond
     if (cond->getType() == Type_Bool)
     {
-- 
2.43.0


From 6f9f5f9adcf7e7cc2c33b35fa3d707bc06df65bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 80/96] fix: texts and files were cut short silently when the
 memory ran out

---
 symbolics/Matrix.cpp               | 1 +
 symbolics/str.cpp                  | 6 ++++++
 symbolics/writer/CSharpWriter.cpp  | 1 +
 symbolics/writer/CWriter.cpp       | 1 +
 symbolics/writer/FortranWriter.cpp | 4 ++++
 symbolics/writer/MatlabWriter.cpp  | 1 +
 symbolics/writer/PythonWriter.cpp  | 1 +
 7 files changed, 15 insertions(+)

diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index c31c1ea..c83fe43 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -62,6 +62,7 @@ std::string Matrix::toString() const
 {
     // Wert in String wandeln
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     
     // Skalar
     if (m_shape.getNrDimensions() == 0)
diff --git a/symbolics/str.cpp b/symbolics/str.cpp
index 445f3d2..6a00b05 100644
--- a/symbolics/str.cpp
+++ b/symbolics/str.cpp
@@ -7,6 +7,7 @@ std::string str(  bool b )
 /*****************************************************************************/
 {
     std::stringstream s;
+    s.exceptions(std::ios::badbit);
     s << std::boolalpha << b; //boolalpha, damit die Ausgabe "true" und "false" statt "1" und "0" lautet
     return s.str();
 }
@@ -17,6 +18,7 @@ std::string str(  double d )
 /*****************************************************************************/
 {
     std::stringstream s;
+    s.exceptions(std::ios::badbit);
     s << std::setprecision(std::numeric_limits<double>::digits10) << d;
     return s.str();
 }
@@ -27,6 +29,7 @@ std::string str(  int i )
 /*****************************************************************************/
 {
     std::stringstream s;
+    s.exceptions(std::ios::badbit);
     s << i;
     return s.str();
 }
@@ -37,6 +40,7 @@ std::string str( int i , int fieldwidth )
 /*****************************************************************************/
 {
     std::stringstream s;
+    s.exceptions(std::ios::badbit);
     s << std::setfill('0') << std::setw(fieldwidth) << i;
     return s.str();
 }
@@ -47,6 +51,7 @@ std::string str(  size_t i )
 /*****************************************************************************/
 {
     std::stringstream s;
+    s.exceptions(std::ios::badbit);
     s << i;
     return s.str();
 }
@@ -57,6 +62,7 @@ std::string str( size_t i , int fieldwidth )
 /*****************************************************************************/
 {
     std::stringstream s;
+    s.exceptions(std::ios::badbit);
     s << std::setfill('0') << std::setw(fieldwidth) << i;
     return s.str();
 }
diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index bc1b299..abbabe3 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -422,6 +422,7 @@ std::string CSharpWriter::writeEquations(std::vector<Graph::Assignment> const& e
 /*****************************************************************************/
 {
 	std::stringstream s;
+	s.exceptions(std::ios::badbit);
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
     {
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index a9d0ce2..a052d5e 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -422,6 +422,7 @@ std::string CWriter::writeEquations(std::vector<Graph::Assignment> const& equati
 /*****************************************************************************/
 {
 	std::stringstream s;
+	s.exceptions(std::ios::badbit);
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
     {
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 559199c..74ae25a 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -139,6 +139,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	// Das Folgende muss erstmal in einem Stringstream zwischengespeichert werden, da die tempor�ren Variablen erst nach
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
+	fss.exceptions(std::ios::badbit);
 
 	fss << "!define states" << std::endl;
 	Shape n = states.at(0)->getShape(); 
@@ -279,6 +280,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	// Das Folgende muss erstmal in einem Stringstream zwischengespeichert werden, da die tempor�ren Variablen erst nach
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
+	fss.exceptions(std::ios::badbit);
 
 	fss << "!define states" << std::endl; 
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
@@ -403,6 +405,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	// Das Folgende muss erstmal in einem Stringstream zwischengespeichert werden, da die tempor�ren Variablen erst nach
 	// schreiben der Equations bekannt sind. Es ist in C++ nicht m�glich nachtr�glich etwas in einen Stream einzuf�gen
 	std::stringstream fss;
+	fss.exceptions(std::ios::badbit);
 
 	fss << "!define states" << std::endl;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
@@ -449,6 +452,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 /*****************************************************************************/
 {
 	std::stringstream s;
+	s.exceptions(std::ios::badbit);
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
     {
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 236ab44..ce47be9 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -501,6 +501,7 @@ std::string MatlabWriter::writeEquations(std::vector<Graph::Assignment> const& e
 /*****************************************************************************/
 {
 	std::stringstream s;
+	s.exceptions(std::ios::badbit);
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
     {
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 9b76b75..86eb429 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -488,6 +488,7 @@ std::string PythonWriter::writeEquations(std::vector<Graph::Assignment> const& e
 /*****************************************************************************/
 {
 	std::stringstream s;
+	s.exceptions(std::ios::badbit);
 
 	for (std::vector<Graph::Assignment>::const_iterator it=equations.begin(); it!=equations.end(); ++it)
 	{
-- 
2.43.0


From 6d6d990ee417483b6154d77eea9867cb94a7de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 81/96] fix: an aborted traversal of the equations made later
 generated files incomplete

---
 symbolics/graph/Graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index cf75889..ffdc95f 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -129,6 +129,11 @@ Symbolics::Graph::AssignmentsPtr Symbolics::Graph::Graph::getAssignments(Categor
   Category_Type exclude)
 /*****************************************************************************/
 {
+  // an aborted traversal leaves its marks behind
+  for (size_t i=0;i<m_nodes.size();++i)
+  {
+    m_nodes[i]->visited = false;
+  }
   // get required nodes
   NodeVec reqnodes;
   NodeCollector v(exclude,reqnodes);
-- 
2.43.0


From 1489b9306222eedbe1804e70cb7df8349280e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 82/96] fix: reporting an error aborted the process when the
 memory ran out

---
 symbolics/wrapper/include/CBasic.h | 48 ++++++++----------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/symbolics/wrapper/include/CBasic.h b/symbolics/wrapper/include/CBasic.h
index 8be017c..7fcba95 100644
--- a/symbolics/wrapper/include/CBasic.h
+++ b/symbolics/wrapper/include/CBasic.h
@@ -28,86 +28,62 @@ namespace Symbolics
 #define STD_ERROR_HANDLER(x) \
 	catch (Symbolics::IndexError &ie) \
 	{ \
-		std::string msg = "Index Error: "; \
-		msg += ie.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "Index Error: %s", ie.what()); \
         return x;\
 	} \
 	catch (Symbolics::ShapeError &se) \
 	{ \
-		std::string msg = "Shape Error: "; \
-		msg += se.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "Shape Error: %s", se.what()); \
         return x; \
 	} \
 	catch (Symbolics::InternalError &inte) \
 	{ \
-		std::string msg = "Internal Error: "; \
-		msg += inte.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "Internal Error: %s", inte.what()); \
         return x; \
 	} \
 	catch (Graph::ExpressionSolveForError &esfe) \
 	{ \
-		std::string msg = "ExpressionSolveForError: "; \
-		msg += esfe.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "ExpressionSolveForError: %s", esfe.what()); \
         return x; \
 	} \
 	catch (Graph::InitalValueError &ive) \
 	{ \
-		std::string msg = "InitalValueError: "; \
-		msg += ive.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "InitalValueError: %s", ive.what()); \
         return x; \
 	} \
 	catch (Graph::SymbolAlreadyExistsError &sae) \
 	{ \
-		std::string msg = "SymbolAlreadyExistsError: "; \
-		msg += sae.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "SymbolAlreadyExistsError: %s", sae.what()); \
         return x; \
 	} \
 	catch (Graph::SymbolAlreadySolvedInError &sase) \
 	{ \
-		std::string msg = "SymbolAlreadySolvedInError: "; \
-		msg += sase.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "SymbolAlreadySolvedInError: %s", sase.what()); \
         return x; \
 	} \
 	catch (Graph::SymbolKindError &ske) \
 	{ \
-		std::string msg = "SymbolKindError: "; \
-		msg += ske.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "SymbolKindError: %s", ske.what()); \
         return x; \
 	} \
 	catch (Graph::VarUnknownError &ve) \
 	{ \
-		std::string msg = "VarUnknownError: "; \
-		msg += ve.what(); \
-		PyErr_SetString(SymbolicsError, msg.c_str()); \
+		PyErr_Format(SymbolicsError, "VarUnknownError: %s", ve.what()); \
         return x; \
 	} \
     catch (std::bad_alloc &ba) \
     { \
-      std::string msg = "bad_alloc caught: "; \
-		  msg += ba.what(); \
-		  PyErr_SetString(SymbolicsError, msg.c_str()); \
+      PyErr_Format(SymbolicsError, "bad_alloc caught: %s", ba.what()); \
           return x; \
     } \
 	catch (std::out_of_range &oor) \
     { \
-      std::string msg = "OutOfRange Error caught: "; \
-		  msg += oor.what(); \
-		  PyErr_SetString(SymbolicsError, msg.c_str()); \
+      PyErr_Format(SymbolicsError, "OutOfRange Error caught: %s", oor.what()); \
           return x; \
     } \
     catch (std::exception &e) \
     { \
-      std::string msg = "Standard Exception caught: "; \
-		  msg += e.what(); \
-		  PyErr_SetString(SymbolicsError, msg.c_str()); \
+      PyErr_Format(SymbolicsError, "Standard Exception caught: %s", e.what()); \
           return x; \
     } \
     catch (...) \
-- 
2.43.0


From 83d4ff7540793846c4e6c77155d0f60774ff90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 83/96] fix: a scalar target that failed for lack of memory
 left the model incomplete

---
 symbolics/graph/Graph.cpp       | 7 ++++---
 symbolics/graph/include/Graph.h | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/symbolics/graph/Graph.cpp b/symbolics/graph/Graph.cpp
index ffdc95f..41620d9 100644
--- a/symbolics/graph/Graph.cpp
+++ b/symbolics/graph/Graph.cpp
@@ -86,11 +86,12 @@ void Symbolics::Graph::Graph::makeScalar()
 /*****************************************************************************/
 
 /*****************************************************************************/
-Symbolics::Graph::ScalarGraph::ScalarGraph(Graph const& g): Graph(g), m_symbolnodes(*eqsys)
+Symbolics::Graph::ScalarGraph::ScalarGraph(Graph const& g): Graph(g)
 /*****************************************************************************/
 {
   // the nodes belong to the other graph
   m_nodes.clear();
+  m_symbolnodes.remember(*eqsys);
   makeScalar();
 }
 /*****************************************************************************/
@@ -106,12 +107,12 @@ Symbolics::Graph::ScalarGraph::~ScalarGraph()
 /*****************************************************************************/
 
 /*****************************************************************************/
-Symbolics::Graph::ScalarGraph::SymbolNodes::SymbolNodes(EquationSystem& eqsys)
+void Symbolics::Graph::ScalarGraph::SymbolNodes::remember(EquationSystem& eqsys)
 /*****************************************************************************/
 {
   EquationSystem::StringSymbolMap& symbols = eqsys.getSymbols();
   for (EquationSystem::StringSymbolMap::iterator ii=symbols.begin();ii!=symbols.end();++ii)
-    m_nodes[ii->second] = ii->second->getUserData(ID_UD_NODE);
+    m_nodes.insert(std::make_pair(ii->second, ii->second->getUserData(ID_UD_NODE)));
 }
 /*****************************************************************************/
 
diff --git a/symbolics/graph/include/Graph.h b/symbolics/graph/include/Graph.h
index 0529fbd..f190a80 100644
--- a/symbolics/graph/include/Graph.h
+++ b/symbolics/graph/include/Graph.h
@@ -107,9 +107,10 @@ namespace Symbolics
             class SymbolNodes
             {
             public:
-                SymbolNodes(EquationSystem& eqsys);
                 ~SymbolNodes();
 
+                void remember(EquationSystem& eqsys);
+
             protected:
                 std::map<SymbolPtr,void*> m_nodes;
             } m_symbolnodes;
-- 
2.43.0


From 58d26a11b222ea033964c551ea1bbdb718a2ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 84/96] fix: a refused addFrame left its frame on the body

---
 pymbs/input/frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/frame.py b/pymbs/input/frame.py
index 2ecf962..885cf15 100644
--- a/pymbs/input/frame.py
+++ b/pymbs/input/frame.py
@@ -31,12 +31,13 @@ class Frame(AbstractFrame, MbsInputElement):
         :param p: Position vector of coordinate origin
         :param R: Rotation matrix
         """
+        assert not hasattr(self, name), f'name {name} already occupied'
+
         cs = Frame(name, self, p, R)
         self.children.append(cs)
         self.coordList.append(cs)
 
         # add to object namespace
-        assert not hasattr(self, name), f'name {name} already occupied'
         self._frames[name] = cs
 
         return cs
-- 
2.43.0


From f38fc8a196c6d7a1fe526b308a6c5951662205df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 85/96] fix: a name like a.b was noticed after its symbol had
 been created

---
 pymbs/input/mbs_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index f5b0db0..703bc86 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -1677,6 +1677,10 @@ class MbsSystem(Body):
 
         assert isinstance(nameStr, str), '%s is not a string!'%nameStr
 
+        # the elements only take identifiers, a target like a.b is none
+        if not nameStr.isidentifier():
+            raise ValueError("'%s' is an invalid name" % nameStr)
+
         # idea: everything, that is could be a python identifier
         # is a valid name
 
-- 
2.43.0


From 2c104beb706934dcd415573ecbdbe1c23bbc7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 86/96] fix: addParam with an impossible value left a symbol
 without equation

---
 pymbs/input/mbs_system.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 703bc86..952551a 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -801,6 +801,12 @@ class MbsSystem(Body):
             return p
         # End of: if isinstance(defaultValue, Symbolics.Matrix):
 
+        # check everything that can go wrong before the symbol is created
+        assert isinstance(defaultValue, (int, float, symbolics.Basic)), \
+            'Parameter "%s" cannot have the value %s' % (name, defaultValue)
+        assert self.graph.getShape(defaultValue) in ((), (1,), (1,1)), \
+            'Parameter "%s" must be a scalar' % name
+
         try: # it might happen that things like a*b<0 throw an exception
             if (positive and negative):
                 raise AttributeError('Parameter "%s" cannot be positive and negative at the same time'%name)
-- 
2.43.0


From 977c332f82e734e74a3a674e338e01bc5afa40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 87/96] fix: addExpression with impossible limits left a symbol
 without equation

---
 pymbs/input/mbs_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 952551a..ceccdf4 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -962,13 +962,14 @@ class MbsSystem(Body):
         else:
             shape = exp.shape()
 
-        symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
         assert isinstance(exp, (int, float, symbolics.Basic, symbolics.Matrix, list))
 
         assert( (limits is None) or isinstance(limits, list) )
         if (isinstance(limits, list)):
             assert( len(limits) == 2 )
 
+        symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
+
         # let the shape be set:
         if (isinstance(exp, list)):
             exp = symbolics.Matrix(exp)
-- 
2.43.0


From 6e3e6bfc042e7612e06b2da2baaca1ee185dac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 88/96] fix: a refused load left the expression of its
 components in the model

---
 pymbs/input/mbs_system.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index ceccdf4..19cb18b 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -845,14 +845,10 @@ class MbsSystem(Body):
             CS2 = CS2._CS_0
         if isinstance(CSref, Body):
             CSref = CSref._CS_0
-        if isinstance(loadSymb, list):
-            loadSymb = self.addExpression(symbol_str=name+'_load', exp=symbolics.Matrix(loadSymb))
-
 
         assert CS1.__class__ == Frame
         assert CS2.__class__ == Frame, "CS2 should be a Frame but is a '%s' with '%s'"%(str(CS2.__class__), str(CS2))
 
-        assert isinstance(loadSymb, symbolics.Symbol)
         assert CSref.__class__ in  (Frame, type(None))
 
 
@@ -860,6 +856,17 @@ class MbsSystem(Body):
             raise ValueError("Invalid force type specifier: %s"\
                                                     % typeString)
 
+        if name in self.loadDict:
+            raise ValueError('Force name %s already exists'\
+                                                        % name)
+
+        if isinstance(loadSymb, list):
+            loadSymb = symbolics.Matrix(loadSymb)
+            assert (typeString != 'PtPForce') and (loadSymb.shape() == (3,)), "Shape %s is wrong for %s"%(loadSymb.shape(),name)
+            loadSymb = self.addExpression(symbol_str=name+'_load', exp=loadSymb)
+
+        assert isinstance(loadSymb, symbolics.Symbol)
+
         if typeString == "PtPForce":
             # CSref does not make sense in PtP-case
             assert CSref is None
@@ -875,11 +882,6 @@ class MbsSystem(Body):
             assert loadSymb.shape() == (3,), "Shape must be (3,) but it is %s"%str(loadSymb.shape)
             loadObject=CmpTorque(name, CS1, CS2, loadSymb, CSref)
 
-
-        if name in self.loadDict:
-            raise ValueError('Force name %s already exists'\
-                                                        % name)
-
         self.loadDict[name]=loadObject
 
         # return nothing
-- 
2.43.0


From 69702244c6091bdc28e6e25e4b0b167ab1ff9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 89/96] fix: a refused joint load left its expression in the
 model

---
 pymbs/input/mbs_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 19cb18b..0af4193 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -902,6 +902,9 @@ class MbsSystem(Body):
         assert isinstance(thejoint, Joint),\
             "The passed joint object has the wrong type: %s" % type(thejoint)
 
+        assert thejoint.jointLoad == None,\
+            "The passed joint object already has a jointLoad"
+
         # Falls wir fuer die JointLoad einen Ausdruck aber kein Symbol erhalten,
         # dann neue temporaere Variable anlegen
         if (isinstance(loadSymb, symbolics.Basic) and not isinstance(loadSymb, symbolics.Symbol)):
@@ -910,9 +913,6 @@ class MbsSystem(Body):
         assert isinstance(loadSymb, symbolics.Symbol),\
             "loadSymb must be a Symbol, not a %s" % type(loadSymb)
 
-        assert thejoint.jointLoad == None,\
-            "The passed joint object already has a jointLoad"
-
         loadObject = JointLoad(name, thejoint, loadSymb)
         thejoint.jointLoad = loadObject
         self.loadDict[name] = loadObject
-- 
2.43.0


From 1b5307aab5586df5576ca75f8a816c2aa313991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 90/96] fix: a vector parameter with an impossible element left
 the others in the model

---
 pymbs/input/mbs_system.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 0af4193..1c9105f 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -740,6 +740,8 @@ class MbsSystem(Body):
         if isinstance(defaultValue, (list, tuple)):
             L=len(defaultValue)
             assert L == 3 or L == 6, "vectors must have length 3 or 6"
+            for v in defaultValue:
+                self._checkParam(name, v)
 
             #
             suffixes=['x', 'y', 'z']
@@ -801,11 +803,8 @@ class MbsSystem(Body):
             return p
         # End of: if isinstance(defaultValue, Symbolics.Matrix):
 
-        # check everything that can go wrong before the symbol is created
-        assert isinstance(defaultValue, (int, float, symbolics.Basic)), \
-            'Parameter "%s" cannot have the value %s' % (name, defaultValue)
-        assert self.graph.getShape(defaultValue) in ((), (1,), (1,1)), \
-            'Parameter "%s" must be a scalar' % name
+        # the value must be fine before the symbol is created
+        self._checkParam(name, defaultValue)
 
         try: # it might happen that things like a*b<0 throw an exception
             if (positive and negative):
@@ -826,6 +825,15 @@ class MbsSystem(Body):
 
         return paramSymbol
 
+    def _checkParam(self, name, value):
+        """
+        checks if value can be the value of a scalar parameter
+        """
+        assert isinstance(value, (int, float, symbolics.Basic)), \
+            'Parameter "%s" cannot have the value %s' % (name, value)
+        assert self.graph.getShape(value) in ((), (1,), (1,1)), \
+            'Parameter "%s" must be a scalar' % name
+
     def _addLoad(self, typeString, loadSymb, CS1, CS2, CSref=None, name=None):
         """
         Internal function to add a 'PtPForce', 'CmpForce' or 'CmpTorque'
-- 
2.43.0


From a2858c2fdb945ede677d49c2bab9abfaed023ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 91/96] fix: a refused joint with several degrees of freedom
 left its dummy bodies in the model

---
 pymbs/input/mbs_system.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 1c9105f..4019f5f 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -391,6 +391,31 @@ class MbsSystem(Body):
         assert len(startVals) == len(dofList), 'Invalid startValue parameter for %s' % name
         assert len(startVals_d) == len(dofList)
 
+        # everything an elementary joint may object to has to be known before
+        # the first one and its dummy body are created
+        for val in startVals + startVals_d:
+            assert isinstance(val, (int, float, symbolics.Symbol))
+
+        parentBody1 = CS1.getParentBody()
+        parentBody2 = CS2.getParentBody()
+        assert not parentBody1 == parentBody2
+        if parentBody2.endOfJoint is not None:
+            raise ValueError("Body '%s` is already the target body of joint '%s`" \
+                % (parentBody2, parentBody2.endOfJoint))
+
+        if len(dofList) > 1:
+            names = ["%s_%s" % (name, dof) for dof in dofList]
+            dummies = ["dummy_%s_%s_%s" % (parentBody1.name, parentBody2.name, dof)
+                       for dof in dofList[:-1]]
+            if len(set(names)) < len(names):
+                raise ValueError("Joint %s has the same degree of freedom twice" % name)
+            for newName in names:
+                self._checkName(newName)
+            for newName in dummies:
+                self._checkName(newName)
+                if newName in self.bodyDict:
+                    raise ValueError("Name of Body already exists")
+
 
         elemJointList = []
 
-- 
2.43.0


From 84c67948a4d43ce66d2a22da0e3e8c0d43d520d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 92/96] fix: options of genEquations were looked at after the
 model had been transformed

---
 pymbs/input/transformation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 0336d57..2972485 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -777,6 +777,11 @@ class PublicMethods(object):
                      graphOptimizations=False):
         assert isinstance(iWorld, _MbsSystemType)
 
+        # look at the options first, the equations can only be derived once
+        assert isinstance(graphOptimizations, bool), "graphOptimizations must be a bool"
+        for d in (diff if isinstance(diff, list) else [diff]):
+            assert d in (0, 1, 2), "diff must be 0, 1 or 2 or a list of these"
+
         _Graph = iWorld.graph
 
         print("Transforming Model ...")
-- 
2.43.0


From 8ba654ae677acfcb128fd118ddf6186d1505b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 93/96] fix: a variable with an impossible initial value was
 left in the graph

---
 symbolics/graph/EquationSystem.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index a1e230d..11ce642 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -46,25 +46,27 @@ BasicPtr EquationSystem::addSymbol_Internal( SymbolPtr const& s,
   StringSymbolMap::iterator ii = m_SymbolMap.find(s->getName());
   if (ii != m_SymbolMap.end())
     return ii->second;
-  // add
-  m_SymbolMap[s->getName()] = s;
 
+  // check the initial value before anything is added
+  BasicPtr init;
   if (initalValue == NULL)
   {
-    m_symbolsvaluemap[s] = Zero::getExactZero(s->getShape());
+    init = Zero::getExactZero(s->getShape());
   }
   else
   {
     if (s->getShape() != initalValue->getShape())
       throw ShapeError("Could not use Initvalue " + initalValue->toString() + " for Symbol " + s->toString() + "!");
-    BasicPtr init = BasicPtr(initalValue->simplify());
+    init = BasicPtr(initalValue->simplify());
     InitValueScanner sc;
     init->scanExp(sc);
     if (sc.variable)
       throw InitalValueError("Initvalue is not constant: " + init->toString() + "!");
-    m_symbolsvaluemap[s] = init;
   }
 
+  // add
+  m_SymbolMap[s->getName()] = s;
+  m_symbolsvaluemap[s] = init;
   m_symbolscommentmap[s] = comment;
 
   switch( s->getKind())
-- 
2.43.0


From 9b47a5c1ff53a6a15ac3fda0177dfaa9a6ad7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 94/96] fix: a refused equation left its states or some of its
 parts in the graph

---
 symbolics/Symbol.cpp                     |  50 ++--
 symbolics/graph/EquationSystem.cpp       | 276 ++++++++++++++---------
 symbolics/graph/include/EquationSystem.h |   8 +
 symbolics/include/Symbol.h               |   2 +
 4 files changed, 218 insertions(+), 118 deletions(-)

diff --git a/symbolics/Symbol.cpp b/symbolics/Symbol.cpp
index 6ec8bad..a2bcf06 100644
--- a/symbolics/Symbol.cpp
+++ b/symbolics/Symbol.cpp
@@ -114,6 +114,7 @@ void Symbol::setState()
   for (size_t i=0;i<m_shape.getNumEl();i++)
     m_state[i] = STATE | m_state[i];
   m_statekind = ALL;
+  initDerivative();
 }
 /*****************************************************************************/
 
@@ -133,10 +134,13 @@ void Symbol::setState(size_t dim1, size_t dim2)
   }
   size_t indx = getIndex(dim1,dim2);
   m_state[indx] = STATE | m_state[indx];
+  bool all = true;
   for (size_t i=1;i<m_shape.getNumEl();i++)
     if (!(m_state[i] & STATE))
-      return;
-  m_statekind = ALL;
+      all = false;
+  if (all)
+    m_statekind = ALL;
+  initDerivative();
 }
 /*****************************************************************************/
 
@@ -339,23 +343,35 @@ Symbol* Symbol::getDerivative()
     s = new Symbol("$DER" + getName(),getShape());
     s->setUserData(static_cast<void*>(this),ID_UD_STATE);
     setUserData(static_cast<void*>(s),ID_UD_STATEDERIVATIVE);
-    if (m_statekind == ALL)
-    {
-      if (m_state[0] & STATE)
-        s->m_state[0] = DER_STATE;
-    }
-    else
+    initDerivative();
+  }
+  return s;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void Symbol::initDerivative()
+/*****************************************************************************/
+{
+  // the derivative may be there before it is known that this is a state
+  Symbol *s = static_cast<Symbol*>(getUserData(ID_UD_STATEDERIVATIVE));
+  if ((s == NULL) || (s->m_statekind != ALL) || (s->m_state[0] != NO_STATE))
+    return;
+  if (m_statekind == ALL)
+  {
+    if (m_state[0] & STATE)
+      s->m_state[0] = DER_STATE;
+  }
+  else
+  {
+    s->m_statekind = SEVERAL;
+    for (size_t i=0;i<m_shape.getNrDimensions();i++)
     {
-      s->m_statekind = SEVERAL;
-      for (size_t i=0;i<m_shape.getNrDimensions();i++)
-      {
-        if (m_state[i] & STATE)
-          s->m_state[i] = s->m_state[i] | DER_STATE;
-        else
-          s->m_state[i] = NO_STATE;
-      }
+      if (m_state[i] & STATE)
+        s->m_state[i] = s->m_state[i] | DER_STATE;
+      else
+        s->m_state[i] = NO_STATE;
     }
   }
-  return s;
 }
 /*****************************************************************************/
diff --git a/symbolics/graph/EquationSystem.cpp b/symbolics/graph/EquationSystem.cpp
index 11ce642..4374454 100644
--- a/symbolics/graph/EquationSystem.cpp
+++ b/symbolics/graph/EquationSystem.cpp
@@ -139,6 +139,16 @@ void EquationSystem::addEquation(BasicPtr const& solveFor,
   BasicPtr const& exp, bool implicit)
 /*****************************************************************************/
 {
+  addEquation_Internal(solveFor, exp, implicit, false);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void EquationSystem::addEquation_Internal(BasicPtr const& solveFor,
+  BasicPtr const& exp, bool implicit, bool checkOnly)
+/*****************************************************************************/
+{
+  // nothing is changed before all checks have passed
   BasicPtr simpleexp = exp->simplify();
 
   // wenn der(x)=... dann x wird zu State und auch stateder hinzufuegen
@@ -172,8 +182,12 @@ void EquationSystem::addEquation(BasicPtr const& solveFor,
 
   // Symbols of eqn
   checkEquation(&scanner,simpleexp,BasicPtrVec(),implicit,symbols);
+  if (checkOnly)
+    return;
 
   // add
+  addDerStates(solveFor);
+  addStates(&scanner,symbols);
   EquationPtr eqn;
   if (implicit || (solveFor.get() == NULL))
   {
@@ -232,52 +246,6 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
 {
   // Symbols of eqn
   SymbolPtrElemMap &atoms = scanner->atoms;
-  // add StateDerivative
-  for (SymbolPtrElemMap::iterator ii=scanner->states.begin();ii!=scanner->states.end();ii++)
-  {
-    Symbol *s = const_cast<Symbol*>(Util::getAsConstPtr<Symbol>(ii->first));
-    SymbolPtr sp(s);
-    SymbolPtr ders = ii->first->getDerivative();
-    SymbolPtrElemMap::iterator is = m_states.find(ii->first);
-    if (is == m_states.end())
-    {
-      m_states[ii->first] = ii->second;
-      addSymbol_Internal(ders, NULL, "");
-      m_derstates[ders] = ii->second;
-      if (ii->second.kind == ALL)
-        m_variables.erase(s);
-      else
-      {
-        SymbolPtrElemMap::iterator iv = m_variables.find(ii->first);
-        if (iv != m_variables.end())
-        {
-          for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
-          {
-            iv->second.elements.erase(SizeTPair(ie->first,ie->second));
-          }
-          if (iv->second.elements.size() == 0)
-            m_variables.erase(iv);
-        }
-      }
-    }
-    else
-    {
-      if (is->second.kind != ALL)
-      {
-        if (ii->second.kind != ALL)
-        {
-          SymbolPtrElemMap::iterator iv = m_variables.find(ii->first);
-          for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
-          {
-            is->second.elements.insert(SizeTPair(ie->first,ie->second));
-            m_derstates[ders].elements.insert(SizeTPair(ie->first,ie->second));
-            if (iv != m_variables.end())
-              iv->second.elements.erase(SizeTPair(ie->first,ie->second));
-          }
-        }
-      }
-    }
-  }
   // symbol in exp dann Fehler
   if (!implicit)
   {
@@ -353,17 +321,79 @@ void EquationSystem::checkEquation(DerivativeScanner *scanner,
     }
   }
   // symbol nicht angelegt dann Fehler
+  // (a derivative in the equation is added together with its state)
+  SymbolPtrSet ders;
+  for (SymbolPtrElemMap::iterator ii=scanner->states.begin();ii!=scanner->states.end();ii++)
+    ders.insert(ii->first->getDerivative());
   for (SymbolPtrElemMap::iterator ii = atoms.begin();ii!=atoms.end();++ii)
   {
     StringSymbolMap::iterator is = m_SymbolMap.find(ii->first->getName());
-    if (is == m_SymbolMap.end())
+    if ((is == m_SymbolMap.end()) && (ders.find(ii->first) == ders.end()))
       throw VarUnknownError(ii->first->getName());
   }
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void EquationSystem::addStates(DerivativeScanner *scanner, SymbolPtrElemMap const& symbols)
+/*****************************************************************************/
+{
+  // add StateDerivative
+  for (SymbolPtrElemMap::iterator ii=scanner->states.begin();ii!=scanner->states.end();ii++)
+  {
+    Symbol *s = const_cast<Symbol*>(Util::getAsConstPtr<Symbol>(ii->first));
+    SymbolPtr sp(s);
+    SymbolPtr ders = ii->first->getDerivative();
+    if (ii->second.kind == ALL)
+      s->setState();
+    else
+    {
+      for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
+        s->setState(ie->first,ie->second);
+    }
+    SymbolPtrElemMap::iterator is = m_states.find(ii->first);
+    if (is == m_states.end())
+    {
+      m_states[ii->first] = ii->second;
+      addSymbol_Internal(ders, NULL, "");
+      m_derstates[ders] = ii->second;
+      if (ii->second.kind == ALL)
+        m_variables.erase(s);
+      else
+      {
+        SymbolPtrElemMap::iterator iv = m_variables.find(ii->first);
+        if (iv != m_variables.end())
+        {
+          for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
+          {
+            iv->second.elements.erase(SizeTPair(ie->first,ie->second));
+          }
+          if (iv->second.elements.size() == 0)
+            m_variables.erase(iv);
+        }
+      }
+    }
+    else
+    {
+      if (is->second.kind != ALL)
+      {
+        if (ii->second.kind != ALL)
+        {
+          SymbolPtrElemMap::iterator iv = m_variables.find(ii->first);
+          for (SizeTPairSet::iterator ie=ii->second.elements.begin();ie!=ii->second.elements.end();ie++)
+          {
+            is->second.elements.insert(SizeTPair(ie->first,ie->second));
+            m_derstates[ders].elements.insert(SizeTPair(ie->first,ie->second));
+            if (iv != m_variables.end())
+              iv->second.elements.erase(SizeTPair(ie->first,ie->second));
+          }
+        }
+      }
+    }
+  }
   // balanced ?
   if (symbols.size() == 0)
     m_balanced = false;
-
-
 }
 /*****************************************************************************/
 
@@ -381,8 +411,14 @@ void EquationSystem::addEquation( BasicPtrVec const& solveFor,
   // if not implicit us addEquation
   if (!implicit)
   {
+    // all of them or none
+    SymbolPtrElemMap all;
+    for (size_t i=0;i<exp.size();++i)
+      getSymbolOrDer(all,solveFor[i]);
     for (size_t i=0;i<exp.size();++i)
-      addEquation(solveFor[i],exp[i],implicit);
+      addEquation_Internal(solveFor[i],exp[i],implicit,true);
+    for (size_t i=0;i<exp.size();++i)
+      addEquation_Internal(solveFor[i],exp[i],implicit,false);
     return;
   }
 
@@ -405,6 +441,9 @@ void EquationSystem::addEquation( BasicPtrVec const& solveFor,
   }
   // Symbols of eqn
   checkEquation(&scanner,BasicPtr(),exp,implicit,symbols);
+  for(size_t j=0;j<solveFor.size();++j)
+    addDerStates(solveFor[j]);
+  addStates(&scanner,symbols);
 
   // add
   BasicPtrVec lhs;
@@ -882,7 +921,90 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
     Symbol *s = const_cast<Symbol*>(symbol);
     SymbolPtr sp( s );
     if (inDer)
+      sp = s->getDerivative();
+    SymbolPtrElemMap::iterator ik = res.find(sp);
+    if (ik == res.end())
     {
+      if (inElement)
+      {
+        res[sp] = SymbolElementT(dim1,dim2);
+      }
+      else
+      {
+        res[sp] = SymbolElementT();
+      }
+      return;
+    }
+    else
+    {
+      if (inElement)
+      {
+        if (ik->second.kind == ALL)
+        {
+          throw InternalError("Symbol " + s->getName() + "[" + str(dim1) + "," + str(dim2) + "] is more than once solved in expression");
+        }
+        else if (ik->second.kind == SEVERAL)
+        {
+          SizeTPair dims(dim1,dim2);
+          SizeTPairSet::iterator ie = ik->second.elements.find(dims);
+          if (ie != ik->second.elements.end())
+          {
+            throw InternalError("Symbol " + s->getName() + "[" + str(dim1) + "," + str(dim2) + "] is more than once solved in expression");
+          }
+          else
+          {
+            ik->second.elements.insert(dims);
+            if (ik->second.elements.size() == ik->first->getShape().getNumEl())
+            {
+              ik->second.kind = ALL;
+            }
+            return;
+          }
+        }
+      }
+      else
+        throw InternalError("Symbol " + s->getName() + " is more than once solved in expression");
+    }
+    return;
+  }
+  throw InternalError("lhs expression \"" + exp->toString() + "\" is neither Symbol nor Derivative!");
+  return;
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+void EquationSystem::addDerStates( Symbolics::BasicPtr const& exp, bool inDer,
+  bool inElement, size_t dim1, size_t dim2)
+/*****************************************************************************/
+{
+  // der(x) on the left hand side: x is a state from now on
+  if (exp.get() == NULL)
+    return;
+  switch (exp->getType())
+  {
+  case Type_Matrix:
+    if (inElement)
+      addDerStates(Util::getAsConstPtr<Matrix>(exp)->get(dim1,dim2),inDer);
+    else
+    {
+      for (size_t i=0;i<exp->getArgsSize();i++)
+        addDerStates(exp->getArg(i),inDer);
+    }
+    break;
+  case Type_Der:
+    addDerStates(exp->getArg(0),true,inElement,dim1,dim2);
+    break;
+  case Type_Element:
+    {
+      const Element *e = Util::getAsConstPtr<Element>(exp);
+      addDerStates(e->getArg(0),inDer,true,e->getRow(),e->getCol());
+    }
+    break;
+  case Type_Symbol:
+    if (inDer)
+    {
+      Symbol *s = const_cast<Symbol*>(Util::getAsConstPtr<Symbol>(exp));
+      SymbolPtr sp( s );
       if (inElement)
       {
         s->setState(dim1,dim2);
@@ -922,7 +1044,6 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
           }
           iv->second.elements.erase(SizeTPair(dim1,dim2));
         }
-        sp = ders;
       }
       else
       {
@@ -931,58 +1052,13 @@ void EquationSystem::getSymbolOrDer( SymbolPtrElemMap & res,
         addSymbol_Internal(ders, NULL, "");
         m_states[sp] = SymbolElement();
         m_derstates[ders] = SymbolElement();
-        SymbolPtrElemMap::iterator iv = m_variables.find(sp);
         m_variables.erase(sp);
-        sp = ders;
       }
     }
-    SymbolPtrElemMap::iterator ik = res.find(sp);
-    if (ik == res.end())
-    {
-      if (inElement)
-      {
-        res[sp] = SymbolElementT(dim1,dim2);
-      }
-      else
-      {
-        res[sp] = SymbolElementT();
-      }
-      return;
-    }
-    else
-    {
-      if (inElement)
-      {
-        if (ik->second.kind == ALL)
-        {
-          throw InternalError("Symbol " + s->getName() + "[" + str(dim1) + "," + str(dim2) + "] is more than once solved in expression");
-        }
-        else if (ik->second.kind == SEVERAL)
-        {
-          SizeTPair dims(dim1,dim2);
-          SizeTPairSet::iterator ie = ik->second.elements.find(dims);
-          if (ie != ik->second.elements.end())
-          {
-            throw InternalError("Symbol " + s->getName() + "[" + str(dim1) + "," + str(dim2) + "] is more than once solved in expression");
-          }
-          else
-          {
-            ik->second.elements.insert(dims);
-            if (ik->second.elements.size() == ik->first->getShape().getNumEl())
-            {
-              ik->second.kind = ALL;
-            }
-            return;
-          }
-        }
-      }
-      else
-        throw InternalError("Symbol " + s->getName() + " is more than once solved in expression");
-    }
-    return;
+    break;
+  default:
+    break;
   }
-  throw InternalError("lhs expression \"" + exp->toString() + "\" is neither Symbol nor Derivative!");
-  return;
 }
 /*****************************************************************************/
 
@@ -1184,7 +1260,6 @@ void EquationSystem::DerivativeScanner::process_derArg(BasicPtr const &p)
   Symbol *s = const_cast<Symbol*>(sconst);
   if (inelement)
   {
-    s->setState(dim1,dim2);
     SymbolPtr sd(s->getDerivative());
     addAtom(sd);
     SymbolPtrElemMap::iterator ii = states.find(s);
@@ -1198,7 +1273,6 @@ void EquationSystem::DerivativeScanner::process_derArg(BasicPtr const &p)
   }
   else
   {
-    s->setState();
     SymbolPtr sd(s->getDerivative());
     addAtom(sd);
     SymbolPtrElemMap::iterator ii = states.find(s);
diff --git a/symbolics/graph/include/EquationSystem.h b/symbolics/graph/include/EquationSystem.h
index 10b19fc..f1e8fdc 100644
--- a/symbolics/graph/include/EquationSystem.h
+++ b/symbolics/graph/include/EquationSystem.h
@@ -189,6 +189,12 @@ namespace Symbolics
       void getSymbolOrDer( SymbolPtrElemMap &res, BasicPtr const& exp, bool inMatrix=false,
         bool inDer=false, bool inElement=false, size_t dim1=0, size_t dim2=0);
 
+      void addDerStates( BasicPtr const& exp, bool inDer=false, bool inElement=false,
+        size_t dim1=0, size_t dim2=0);
+
+      void addEquation_Internal(BasicPtr const& solveFor, BasicPtr const& exp,
+        bool implicit, bool checkOnly);
+
       void assignEqnstoSymbols(SymbolPtrElemMap &symbols, EquationPtr eqn);
 
 
@@ -235,6 +241,8 @@ namespace Symbolics
           BasicPtr process_Arg(BasicPtr const &p);
       };
 
+      void addStates(DerivativeScanner *scanner, SymbolPtrElemMap const& symbols);
+
       void checkEquation(DerivativeScanner *scanner,
         BasicPtr const& exp, BasicPtrVec const& expvec, bool implicit, SymbolPtrElemMap &symbols);
 
diff --git a/symbolics/include/Symbol.h b/symbolics/include/Symbol.h
index d1f59a7..9227f51 100644
--- a/symbolics/include/Symbol.h
+++ b/symbolics/include/Symbol.h
@@ -112,6 +112,8 @@ namespace Symbolics
         // user Data
         std::vector<void*> m_userData;
         void calcHash();
+        // state category of the derivative
+        void initDerivative();
 #ifdef _DEBUG
         static std::set<std::string> symbol_names;
 #endif
-- 
2.43.0


From b9bc65413a4de1442de909ee33eab2a439ad9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:35 +0000
Subject: [PATCH 95/96] fix: an expression with a symbol of another model left
 a symbol without equation

---
 pymbs/input/mbs_system.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 4019f5f..2907f16 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -858,6 +858,16 @@ class MbsSystem(Body):
             'Parameter "%s" cannot have the value %s' % (name, value)
         assert self.graph.getShape(value) in ((), (1,), (1,1)), \
             'Parameter "%s" must be a scalar' % name
+        self._checkKnown(value)
+
+    def _checkKnown(self, exp):
+        """
+        checks if all symbols of exp belong to this model
+        """
+        if isinstance(exp, symbolics.Basic):
+            for atom in exp.atoms():
+                if isinstance(atom, symbolics.Symbol):
+                    self.graph.getVariable(str(atom))
 
     def _addLoad(self, typeString, loadSymb, CS1, CS2, CSref=None, name=None):
         """
@@ -1003,6 +1013,8 @@ class MbsSystem(Body):
         if (isinstance(limits, list)):
             assert( len(limits) == 2 )
 
+        self._checkKnown(exp)
+
         symbol = self.graph.addVariable(symbol_str, shape=shape, varKind=category, pos=positive, neg=negative)
 
         # let the shape be set:
-- 
2.43.0


From ef9028224c64c49bfdd5f20cb9fcbfec4a947eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 96/96] fix: kinematicsOnly was looked at after the model had
 been transformed

---
 pymbs/input/transformation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index 2972485..bb4680e 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -781,6 +781,7 @@ class PublicMethods(object):
         assert isinstance(graphOptimizations, bool), "graphOptimizations must be a bool"
         for d in (diff if isinstance(diff, list) else [diff]):
             assert d in (0, 1, 2), "diff must be 0, 1 or 2 or a list of these"
+        assert not kinematicsOnly or kinematicsOnly == True, "kinematicsOnly must be a bool"
 
         _Graph = iWorld.graph
 
-- 
2.43.0

