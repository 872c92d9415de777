From e5f2f3fe6691513fa52135a22b6b42b9fd319d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 01/42] fix: compare the daughters of ManyBodyPhaseSpace, not
 only their masses

Two channels with different daughter particles of equal mass (particle and
antiparticle) compared equal.
---
 src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index 23403ab..45ec231 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -85,6 +85,10 @@ bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
     {
         return false;
     } else if (daughter_masses_ != many_body->daughter_masses_)
+    {
+        return false;
+    } else if (!std::equal(daughters_.begin(), daughters_.end(), many_body->daughters_.begin(),
+                           [](const std::shared_ptr<const ParticleDef>& a, const std::shared_ptr<const ParticleDef>& b) { return *a == *b; }))
     {
         return false;
     } else if (uniform_ != many_body->uniform_)
-- 
2.43.0


From 230f382ce6a05bef21a016a4fa7a55419d733099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 02/42] fix: vectors in different coordinate systems no longer
 compare equal

A Cartesian3D and a Spherical3D with the same three numbers compared equal
although they are different vectors.
---
 src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx
index 538e5b1..06789c6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Vector3D.cxx
@@ -1,6 +1,7 @@
 
 #include <cmath>
 #include <sstream>
+#include <typeinfo>
 
 #include "PROPOSAL/math/Vector3D.h"
 #include "PROPOSAL/methods.h"
@@ -13,6 +14,9 @@ void Vector3D::SetCoordinates(double val1, double val2, double val3) {
 }
 
 bool Vector3D::operator==(const Vector3D& rhs) const {
+    // coordinates of different coordinate systems are not comparable
+    if (typeid(*this) != typeid(rhs))
+        return false;
     for (size_t i = 0; i<3; i++) {
         if (coordinates[i] != rhs.coordinates[i] )
             return false;
-- 
2.43.0


From 9ad37805772e73c8e1981fe2f7678fcef1d3b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 03/42] fix: compare the kind of multiple scattering
 parametrizations

Comparing a Highland with a Moliere parametrization dereferenced the null
result of a failed dynamic_cast.
---
 .../scattering/multiple_scattering/Parametrization.cxx       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index cd2e7fe..4964ca5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -13,6 +13,7 @@
 #include <sstream>
 #include <iostream>
 #include <PROPOSAL/math/Spherical3D.h>
+#include <typeinfo>
 
 
 #include "PROPOSAL/methods.h"
@@ -29,7 +30,9 @@ Parametrization::Parametrization(double _mass)
 
 bool Parametrization::operator==(const Parametrization& scattering) const
 {
-    if (mass != scattering.mass)
+    if (typeid(*this) != typeid(scattering))
+        return false;
+    else if (mass != scattering.mass)
         return false;
     else
         return this->compare(scattering);
-- 
2.43.0


From ffc42c9ba9b39785045bcc7e82304646bc1d999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:09 +0000
Subject: [PATCH 04/42] fix: compare kind and direction of density axes

Density_distr::operator== compares its axes through the non-virtual
Axis::operator==, which looks at the reference point only: distributions
along different axes compared equal.
---
 .../PROPOSAL/density_distr/density_distr.h       |  4 ++--
 .../PROPOSAL/density_distr/density_distr.cxx     | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..ced266a 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -44,6 +44,7 @@ class Axis {
 
     bool operator==(const Axis& axis) const;
     bool operator!=(const Axis& axis) const;
+    virtual bool compare(const Axis&) const { return true; };
 
     virtual Axis* clone() const = 0;
 
@@ -83,8 +84,7 @@ class CartesianAxis : public Axis {
 
     Axis* clone() const override { return new CartesianAxis(*this); };
 
-    bool operator==(const CartesianAxis& axis) const;
-    bool operator!=(const CartesianAxis& axis) const;
+    bool compare(const Axis&) const override;
 
     auto GetAxis() const { return fAxis_; };
     double GetDepth(const Vector3D& xi) const override;
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..bd1b050 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <typeinfo>
 #include "PROPOSAL/Logging.h"
 #include "PROPOSAL/density_distr/density_distr.h"
 #include "PROPOSAL/density_distr/density_exponential.h"
@@ -73,9 +74,11 @@ Axis::Axis(const nlohmann::json& config) {
 Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 
 bool Axis::operator==(const Axis& axis) const {
+    if(typeid(*this) != typeid(axis))
+        return false;
     if(fp0_ != axis.fp0_)
         return false;
-    return true;
+    return this->compare(axis);
 }
 
 bool Axis::operator!=(const Axis& axis) const {
@@ -121,14 +124,11 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
     fAxis_ = Cartesian3D(config.at("fAxis"));
 }
 
-bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
+bool CartesianAxis::compare(const Axis& axis) const {
+    const CartesianAxis* cartesian = dynamic_cast<const CartesianAxis*>(&axis);
+    if(!cartesian)
         return false;
-    return Axis::operator==(axis);
-}
-
-bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
-    return !(*this == axis);
+    return fAxis_ == cartesian->fAxis_;
 }
 
 double CartesianAxis::GetDepth(const Vector3D& xi) const {
-- 
2.43.0


From 4798c67dd492e317bf1811f7c2daabc12a7a5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:39 +0000
Subject: [PATCH 05/42] fix: copies of a polynomial own their coefficients

Copies shared the coefficient array of the original, so shift() on one of
them silently changed the other; the array was never released.
---
 src/PROPOSAL/PROPOSAL/math/Function.h          |  4 ++--
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..dc15ba2 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -45,8 +45,8 @@ class Polynom {
     Polynom(const nlohmann::json&);
     Polynom(const Polynom&);
 
-    ~Polynom() {};
-    Polynom& operator=(const Polynom& poly) = default;
+    ~Polynom() { delete[] coeff_; };
+    Polynom& operator=(const Polynom& poly);
 
     Polynom* clone() const { return new Polynom(*this); };
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..5012dff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -27,7 +27,20 @@ Polynom::Polynom(const nlohmann::json& config) {
     std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
 }
 
-Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
+Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(new double[poly.N_]) {
+    std::copy(poly.coeff_, poly.coeff_ + N_, coeff_);
+}
+
+Polynom& Polynom::operator=(const Polynom& poly) {
+    if (this != &poly) {
+        double* coeff = new double[poly.N_];
+        std::copy(poly.coeff_, poly.coeff_ + poly.N_, coeff);
+        delete[] coeff_;
+        N_ = poly.N_;
+        coeff_ = coeff;
+    }
+    return *this;
+}
 
 bool Polynom::operator==(const Polynom& polynom) const {
     if (N_ != polynom.N_)
-- 
2.43.0


From d7b02ea8c863d07bc3c659d3bc12223663d2a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:39 +0000
Subject: [PATCH 06/42] fix: read a polynomial from its configuration

The constructor demanded an array, then looked up a key in it (which always
throws), and would have copied between iterators of two temporaries.
---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 5012dff..1cd3787 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -19,12 +19,14 @@ Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
 }
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
+    if(!config.contains("coefficients") || !config["coefficients"].is_array())
+        throw std::invalid_argument("Polynom: coefficients must be given as an array.");
 
-    N_ = config["coefficients"].get<std::vector<double>>().size();
+    auto coefficients = config["coefficients"].get<std::vector<double>>();
+    N_ = coefficients.size();
     coeff_ = new double[N_];
 
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    std::copy(coefficients.begin(), coefficients.end(), coeff_);
 }
 
 Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(new double[poly.N_]) {
-- 
2.43.0


From 2937327b751bfb50c502aa19d1c8e6d3370d1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:39 +0000
Subject: [PATCH 07/42] fix: Spline::Derivative differentiates the spline

It differentiated temporary copies and left the spline unchanged.
---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..f883a8a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -78,7 +78,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
-- 
2.43.0


From 6ef4d50e5cbe6870509303e8b9eaafcdfb5dc065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:39 +0000
Subject: [PATCH 08/42] fix: copies of density distributions own their axis and
 splines

Copying a spline density (clone() does) shared the splines of the original
and both destructors deleted them; assigning densities did the same with the
axis, and left polynomial densities bound to the polynomial of the source.
Spline densities are compared by value accordingly.
---
 .../PROPOSAL/density_distr/density_distr.h    |  1 +
 .../density_distr/density_polynomial.h        |  1 +
 .../PROPOSAL/density_distr/density_splines.h  |  1 +
 .../PROPOSAL/density_distr/density_distr.cxx  | 10 +++++++++
 .../density_distr/density_polynomial.cxx      | 11 ++++++++++
 .../density_distr/density_splines.cxx         | 21 +++++++++++++++----
 6 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index ced266a..2773aa1 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -115,6 +115,7 @@ class Density_distr {
     Density_distr(const Axis& axis, double);
     Density_distr(const nlohmann::json&);
     Density_distr(const Density_distr&);
+    Density_distr& operator=(const Density_distr&);
 
     virtual ~Density_distr() { delete axis_; };
 
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h b/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
index 3ceeebe..8369262 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_polynomial.h
@@ -41,6 +41,7 @@ class Density_polynomial : public Density_distr {
     Density_polynomial(const Axis&, const Polynom&, double massDensity);
     Density_polynomial(const Axis&, const Polynom&, const Medium& medium);
     Density_polynomial(const Density_polynomial&);
+    Density_polynomial& operator=(const Density_polynomial&);
     Density_polynomial(const nlohmann::json&);
     ~Density_polynomial();
 
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
index 81cf0c6..a66b0fe 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
@@ -44,6 +44,7 @@ class Density_splines : public Density_distr {
     Density_splines(const Axis&, const Spline&, double massDensity);
     Density_splines(const Axis&, const Spline&, const Medium& medium);
     Density_splines(const Density_splines&);
+    Density_splines& operator=(const Density_splines&);
     Density_splines(const nlohmann::json&);
 
     ~Density_splines() {
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index bd1b050..a8dd40a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -18,6 +18,16 @@ Density_distr::Density_distr() : axis_(CartesianAxis().clone()), massDensity_(1.
 Density_distr::Density_distr(const Density_distr& density_distr)
     : axis_(density_distr.axis_->clone()), massDensity_(density_distr.massDensity_) {}
 
+Density_distr& Density_distr::operator=(const Density_distr& density_distr) {
+    if (this != &density_distr) {
+        Axis* axis = density_distr.axis_->clone();
+        delete axis_;
+        axis_ = axis;
+        massDensity_ = density_distr.massDensity_;
+    }
+    return *this;
+}
+
 Density_distr::Density_distr(const nlohmann::json& config) {
     if(!config.contains("axis_type"))
         throw std::invalid_argument("Axis: Type of axis must be specified using axis_type");
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..dfb8468 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -28,6 +28,17 @@ Density_polynomial::Density_polynomial(const Density_polynomial& dens)
       density_distribution(polynom_.GetFunction()),
       antiderived_density_distribution(Polynom_.GetFunction()) {}
 
+Density_polynomial& Density_polynomial::operator=(const Density_polynomial& dens) {
+    if (this != &dens) {
+        Density_distr::operator=(dens);
+        polynom_ = dens.polynom_;
+        Polynom_ = dens.Polynom_;
+        density_distribution = polynom_.GetFunction();
+        antiderived_density_distribution = Polynom_.GetFunction();
+    }
+    return *this;
+}
+
 Density_polynomial::Density_polynomial(const nlohmann::json& config) : Density_distr(config),
     polynom_(config),
     Polynom_(polynom_.GetAntiderivative(0)),
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..aeef9eb 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -19,8 +19,21 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
+
+Density_splines& Density_splines::operator=(const Density_splines& dens_splines) {
+    if (this != &dens_splines) {
+        Density_distr::operator=(dens_splines);
+        Spline* spline = dens_splines.spline_->clone();
+        Spline* integrated_spline = dens_splines.integrated_spline_->clone();
+        delete spline_;
+        delete integrated_spline_;
+        spline_ = spline;
+        integrated_spline_ = integrated_spline;
+    }
+    return *this;
+}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
@@ -43,9 +56,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_!= *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_!= *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From 3237c8cfeffec8b82ab29627f746104ff6641e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:56 +0000
Subject: [PATCH 09/42] fix: integrate polynomial and spline densities along
 inclined directions

The column along a direction that makes an angle with the axis was divided by
the cosine twice, and the derivative handed to the Newton search was not the
derivative of the function searched.
---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx      | 4 ++--
 .../detail/PROPOSAL/density_distr/density_splines.cxx         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index dfb8468..50cfad1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -70,7 +70,7 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double l) const {
     (void)res;
     Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
@@ -99,7 +99,7 @@ double Density_polynomial::Integrate(const Vector3D& xi,
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+           delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index aeef9eb..eb85f1b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -76,7 +76,7 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double l) const {
     (void)res;
     auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
@@ -101,7 +101,7 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
-- 
2.43.0


From 89d6a1a8f52d66da6a1a50d097f15084d34729ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 10/42] fix: copied and assigned integrators own their
 integrand

The copy referred to the std::function inside the object it was copied from
(inside a destroyed temporary after an assignment), and swap lost one of the
two integrands and did not exchange the QUADPACK work arrays.
---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..a3355c8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -383,6 +383,7 @@ Integral::Integral(const Integral& integral)
     , iY_(integral.iY_)
     , c_(integral.c_)
     , d_(integral.d_)
+    , integrand_(integral.integrand_)
     , romberg4refine_(integral.romberg4refine_)
     , powerOfSubstitution_(integral.powerOfSubstitution_)
     , randomDo_(integral.randomDo_)
@@ -396,7 +397,6 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
 }
 
 //----------------------------------------------------------------------------//
@@ -571,7 +571,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    integrand_.swap(integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
@@ -582,6 +582,10 @@ void Integral::swap(Integral& integral)
     swap(reverse_, integral.reverse_);
     swap(reverseX_, integral.reverseX_);
     swap(savedResult_, integral.savedResult_);
+
+    q_last_3_results_.swap(integral.q_last_3_results_);
+    q_rlist2_.swap(integral.q_rlist2_);
+    q_iord_.swap(integral.q_iord_);
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 932436c42fcbd031a6e8a3ec147544086b67d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:22 +0000
Subject: [PATCH 11/42] fix: copied and swapped interpolation tables own their
 functions

The copy referred to the std::function members of its source, so it dangled
when the source went away, and a swap left the functions behind.
---
 src/PROPOSAL/PROPOSAL/math/Interpolant.h      |  4 +++
 .../detail/PROPOSAL/math/Interpolant.cxx      | 30 +++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Interpolant.h b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
index cc56022..c9a0d2f 100644
--- a/src/PROPOSAL/PROPOSAL/math/Interpolant.h
+++ b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
@@ -153,6 +153,10 @@ private:
 
     //----------------------------------------------------------------------------//
 
+    void BindFunctions();
+
+    //----------------------------------------------------------------------------//
+
     /**
      * Auxiliary class initializer.
      *
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..7cb9ba0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -930,6 +930,7 @@ Interpolant::Interpolant(const Interpolant& interpolant)
     , rombergY_(interpolant.rombergY_)
     , iX_(interpolant.iX_)
     , iY_(interpolant.iY_)
+    , iY2_(interpolant.iY2_)
     , c_(interpolant.c_)
     , d_(interpolant.d_)
     , max_(interpolant.max_)
@@ -965,8 +966,9 @@ Interpolant::Interpolant(const Interpolant& interpolant)
         Interpolant_.at(i) = new Interpolant(*interpolant.Interpolant_.at(i));
     }
 
-    function1d_ = std::ref(interpolant.function1d_);
-    function2d_ = std::ref(interpolant.function2d_);
+    function1d_ = interpolant.function1d_;
+    function2d_ = interpolant.function2d_;
+    BindFunctions();
 }
 
 //----------------------------------------------------------------------------//
@@ -1585,7 +1587,14 @@ void Interpolant::swap(Interpolant& interpolant)
     c_.swap(interpolant.c_);
     d_.swap(interpolant.d_);
 
+    iY2_.swap(interpolant.iY2_);
+
     Interpolant_.swap(interpolant.Interpolant_);
+
+    function1d_.swap(interpolant.function1d_);
+    function2d_.swap(interpolant.function2d_);
+    BindFunctions();
+    interpolant.BindFunctions();
 }
 
 //----------------------------------------------------------------------------//
@@ -1710,6 +1719,23 @@ void Interpolant::InitInterpolant(int max,
 //----------------------------------------------------------------------------//
 //----------------------------------------------------------------------------//
 
+void Interpolant::BindFunctions()
+{
+    // the one-dimensional function of a two-dimensional table refers to its own table
+    if (function2d_ != NULL)
+    {
+        function1d_ = std::bind(&Interpolant::Get2dFunctionFixedY, this, std::placeholders::_1);
+
+        for (unsigned int i = 0; i < Interpolant_.size(); i++)
+        {
+            Interpolant_.at(i)->function1d_ = function1d_;
+        }
+    }
+}
+
+//----------------------------------------------------------------------------//
+//----------------------------------------------------------------------------//
+
 double Interpolant::Get2dFunctionFixedY(double x)
 {
     if (isLog_)
-- 
2.43.0


From 53c0c086deade6fab22b338406e9a5514c1f5625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:17 +0000
Subject: [PATCH 12/42] fix: interpolation tables survive saving and loading

A table that was loaded or built from values was saved as one-dimensional
whatever its dimension, a copied one-dimensional table was saved as
two-dimensional, text files lost the last digits, and failures of the nested
tables were ignored.
---
 .../detail/PROPOSAL/math/Interpolant.cxx      | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 7cb9ba0..03c3ebd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <cmath>
 #include <fstream>
+#include <limits>
 #include <sstream>
 
 #include "PROPOSAL/math/Interpolant.h"
@@ -581,8 +582,6 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
 
         out.open(ss.str().c_str());
 
-        out.precision(16);
-
         if (!out.good())
         {
             Logging::Get("proposal.interpolant")->error("Can not open file %s for writing", Path.c_str());
@@ -600,10 +599,10 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
         }
     }
 
-    Save(out, binary_tables);
+    bool success = Save(out, binary_tables);
 
     out.close();
-    return 1;
+    return success;
 }
 
 //----------------------------------------------------------------------------//
@@ -616,9 +615,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         Logging::Get("proposal.interpolant")->error("Can not open file for writing");
         return 0;
     }
-    bool D2 = false;
-    if (function2d_ != NULL)
-        D2 = true;
+    // tables that were loaded or built from values have no function
+    bool D2 = !Interpolant_.empty();
 
     if (binary_tables)
     {
@@ -652,7 +650,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
             for (int i = 0; i < max_; i++)
             {
                 out.write(reinterpret_cast<char*>(&iX_.at(i)), sizeof iX_.at(i));
-                Interpolant_.at(i)->Save(out, binary_tables);
+                if (!Interpolant_.at(i)->Save(out, binary_tables))
+                    return 0;
             }
         } else
         {
@@ -688,6 +687,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         }
     } else
     {
+        out.precision(std::numeric_limits<double>::max_digits10);
+
         out << D2 << std::endl;
 
         if (D2)
@@ -705,7 +706,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
             for (int i = 0; i < max_; i++)
             {
                 out << iX_.at(i) << std::endl;
-                Interpolant_.at(i)->Save(out, binary_tables);
+                if (!Interpolant_.at(i)->Save(out, binary_tables))
+                    return 0;
             }
         } else
         {
@@ -759,12 +761,18 @@ bool Interpolant::Load(std::string Path, bool binary_tables)
 
 bool Interpolant::Load(std::ifstream& in, bool binary_tables)
 {
-    bool D2;
+    bool D2 = false;
 
-    int max;
-    double xmin, xmax;
-    int romberg, rombergY;
-    bool rational, rationalY, relative, relativeY, isLog, logSubst;
+    int max = 0;
+    double xmin = 0, xmax = 0;
+    int romberg = 0, rombergY = 0;
+    bool rational = false, rationalY = false, relative = false, relativeY = false, isLog = false, logSubst = false;
+
+    for (unsigned int i = 0; i < Interpolant_.size(); i++)
+    {
+        delete Interpolant_.at(i);
+    }
+    Interpolant_.clear();
 
     if (binary_tables)
     {
@@ -799,7 +807,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Load(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
@@ -853,7 +862,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Load(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
-- 
2.43.0


From b09918de93758276e8323aa945b43d19ae9bf7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 13/42] fix: a saved spline is read back as the same spline

Text files kept six digits of the coefficients; binary files held the bytes of
a std::string object and reading one overwrote the Spline object itself.
---
 src/PROPOSAL/PROPOSAL/math/TableWriter.h     | 5 +++--
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/TableWriter.h b/src/PROPOSAL/PROPOSAL/math/TableWriter.h
index 7685d15..77c12b6 100644
--- a/src/PROPOSAL/PROPOSAL/math/TableWriter.h
+++ b/src/PROPOSAL/PROPOSAL/math/TableWriter.h
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 class Table_write {
@@ -46,7 +47,7 @@ class Table_write {
 
     template <typename T>
     void write(T data) {
-        if (binary_)
+        if (binary_ && std::is_trivially_copyable<T>::value)
             file_.write(reinterpret_cast<char*>(&data), sizeof(data));
         else
             file_ << data << '\n';
@@ -72,7 +73,7 @@ class Table_read {
 
     template <typename T>
     void read(T& data) {
-        if (binary_)
+        if (binary_ && std::is_trivially_copyable<T>::value)
             file_.read(reinterpret_cast<char*>(&data), sizeof(data));
         else {
             file_ >> data;
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index f883a8a..b520b85 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -1,6 +1,7 @@
 #include <fstream>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <string>
 #include <utility>
 #include <vector>
@@ -115,6 +116,7 @@ std::vector<spline_container> Spline::GetSplineContainer() const {
 
 bool Spline::save(std::string path, bool binary) {
     std::stringstream sstr;
+    sstr.precision(std::numeric_limits<double>::max_digits10);
     sstr << *this;
 
     Table_write writer(path, binary);
-- 
2.43.0


From 64210314fcc4384899bcc8a45bf1b124e4e67ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 14/42] fix: number of intervals of a spline built from its
 polynomials

There is one interval less than there are interval borders, so evaluation read
past the end.
---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index b520b85..66fb33a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -25,7 +25,7 @@ Spline::Spline(std::vector<double> x, std::vector<double> y) : x_(x), y_(y) {
 Spline::Spline(std::vector<Polynom> splines, std::vector<double> subintervall)
     : splines_(splines),
       subintervall_(subintervall),
-      n_subintervalls_(subintervall_.size()) {}
+      n_subintervalls_(splines_.size()) {}
 
 Spline::Spline(const Spline& spline)
     : splines_(spline.splines_),
-- 
2.43.0


From 82674527e328e02374ad8e4f6f24fafc420e915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:12 +0000
Subject: [PATCH 15/42] fix: decay channels with equal branching ratios are all
 kept

A channel added with the branching ratio of another one replaced it.
---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          | 2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..7a51664 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap; // branching ratios may coincide
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..16333f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -28,7 +28,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        channels_.emplace(iter->first, iter->second->clone());
     }
 }
 
@@ -136,13 +136,13 @@ void DecayTable::SetStable()
 
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    channels_.emplace(1.1, new StableChannel());
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    channels_.emplace(Br, dc.clone());
     return *this;
 }
 
-- 
2.43.0


From 35616b41ee2334685bdff9613d9c6184ca2f028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 16/42] fix: ManyBodyPhaseSpace cannot be assigned

The generated assignment left the weight estimation bound to the source.
---
 src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h b/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h
index 4da9b3e..104a1d3 100644
--- a/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h
+++ b/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h
@@ -66,6 +66,7 @@ public:
     virtual ~ManyBodyPhaseSpace() = default;
 
     // No copy and assignemnt -> done by clone
+    ManyBodyPhaseSpace& operator=(const ManyBodyPhaseSpace&) = delete;
     DecayChannel* clone() const { return new ManyBodyPhaseSpace(*this); }
 
     // ----------------------------------------------------------------------------
-- 
2.43.0


From 51a871853e36741f78aeada89dcf5725c1a1010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 17/42] fix: selecting a channel of an empty decay table throws

It dereferenced the end of the table.
---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 16333f1..409d150 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -1,5 +1,6 @@
 
 #include <sstream>
+#include <stdexcept>
 
 #include "PROPOSAL/decay/DecayTable.h"
 #include "PROPOSAL/decay/DecayChannel.h"
@@ -107,6 +108,11 @@ std::ostream& operator<<(std::ostream& os, DecayTable const& table)
 // ------------------------------------------------------------------------- //
 DecayChannel& DecayTable::SelectChannel(double rnd) const
 {
+    if (channels_.empty())
+    {
+        throw std::logic_error("No decay channel defined. If your particle is stable, call \"SetStable\"!");
+    }
+
     double sumBranchingRatio = 0.0;
     for (DecayMap::const_iterator iter = channels_.begin(); iter != channels_.end(); ++iter)
     {
-- 
2.43.0


From 964df835f5c99fd99539e9ca67882a942b67f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:57 +0000
Subject: [PATCH 18/42] fix: the neutral kaon has the mass of the neutral kaon

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..955316d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -570,7 +570,7 @@ PARTICLE_IMP(Pi0, MPI0, LPI0, 0.0, static_cast<int>(ParticleType::Pi0))
 PARTICLE_IMP(PiMinus, MPI, LPI, -1.0, static_cast<int>(ParticleType::PiMinus))
 PARTICLE_IMP(PiPlus, MPI, LPI, 1.0, static_cast<int>(ParticleType::PiPlus))
 
-PARTICLE_IMP(K0, MKAON, -1.0, 0.0, static_cast<int>(ParticleType::K0))
+PARTICLE_IMP(K0, MKAON0, -1.0, 0.0, static_cast<int>(ParticleType::K0))
 PARTICLE_IMP(KMinus, MKAON, LKAON, -1.0, static_cast<int>(ParticleType::KMinus))
 PARTICLE_IMP(KPlus, MKAON, LKAON, 1.0, static_cast<int>(ParticleType::KPlus))
 
-- 
2.43.0


From c5c67c1a5e886e5ac7c4773b66f7c253305a9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:57 +0000
Subject: [PATCH 19/42] fix: staus can be looked up by their particle type

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 955316d..d205934 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -275,6 +275,8 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::K0), K0Def() },
         { static_cast<int>(ParticleType::KPlus), KPlusDef() },
         { static_cast<int>(ParticleType::KMinus), KMinusDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
         { static_cast<int>(ParticleType::Monopole), MonopoleDef() },
         { static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() },
         { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() }};
-- 
2.43.0


From 1400e5c4f9f4e14612e0702bd29e642b2a9f811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:57 +0000
Subject: [PATCH 20/42] fix: paraffin consists of carbon and hydrogen

---
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index f2f2589..fddff05 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -421,7 +421,7 @@ Paraffin::Paraffin()
           0,        // d0
           0.93,     // massDensity
           {Components::Carbon(25.0),
-           Components::Oxygen(52.0)}) {}
+           Components::Hydrogen(52.0)}) {}
 
 AntaresWater::AntaresWater()
     : Medium("antareswater",
-- 
2.43.0


From 1aaa7e1e6eb73209bcf820bebd23d4b14b025b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:07 +0000
Subject: [PATCH 21/42] fix: energy cuts that are not a number are rejected

---
 src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
index c9747e4..d6d0cd4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
@@ -20,13 +20,13 @@ EnergyCutSettings::EnergyCutSettings(
     , vcut_(vcut)
     , continuous_randomization_(continuous_randomization)
 {
-    if (ecut_ <= 0)
+    if (!(ecut_ > 0))
         throw std::invalid_argument(
             "Absolut EnergyCut (ecut) must be larger > 0! \nINFO: If a ecut = "
             "std::numeric_limits<double>::infinity() is set the particle will "
             "only propagated continously. ");
 
-    if (vcut_ <= 0 || vcut_ > 1)
+    if (!(vcut_ > 0 && vcut_ <= 1))
         throw std::invalid_argument(
             "Relative EnergyCut (vcut) must be between (0, 1]. \nINF0: If a vc"
             "ut = 1 is set, the particle is only propagate continous.");
-- 
2.43.0


From 5faf21e007a63e594c41e038b73746d1229b19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:17 +0000
Subject: [PATCH 22/42] fix: looking up a medium or component before any was
 created throws

---
 src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx | 8 +++++---
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx     | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
index a4afe7a..d1a9b33 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Components.cxx
@@ -261,9 +261,11 @@ double Component::WoodSaxonPotential(double r0)
 }
 
 Component Component::GetComponentForHash(size_t hash) {
-    auto it = Component::component_map->find(hash);
-    if (it != Component::component_map->end())
-        return it->second;
+    if (Component::component_map) {
+        auto it = Component::component_map->find(hash);
+        if (it != Component::component_map->end())
+            return it->second;
+    }
     throw std::invalid_argument("Component for given hash not registered");
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index fddff05..1fb22d5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -210,9 +210,11 @@ size_t Medium::GetHash() const noexcept
 }
 
 Medium Medium::GetMediumForHash(size_t hash) {
-    auto it = Medium::medium_map->find(hash);
-    if (it != Medium::medium_map->end())
-        return it->second;
+    if (Medium::medium_map) {
+        auto it = Medium::medium_map->find(hash);
+        if (it != Medium::medium_map->end())
+            return it->second;
+    }
     throw std::invalid_argument("Medium for given hash not registered");
 }
 
-- 
2.43.0


From 0ad54761b7a9badb8ffcc978f83cc886a635a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:09 +0000
Subject: [PATCH 23/42] fix: geometry configurations keep fractional inner
 radii and invalid cylinders are rejected

---
 .../detail/PROPOSAL/geometry/Cylinder.cxx        | 16 +++++++++-------
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..6a80c66 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -31,17 +31,19 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ < inner_radius_)
+       throw std::logic_error("radius must be larger than inner radius");
+    if(z_ < 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From a33c88ef1e7b48c18283734f4e1b7e623fc162a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:29 +0000
Subject: [PATCH 24/42] fix: sampling the photon direction no longer reseeds
 the library-wide random stream

---
 .../bremsstrahlung/BremsKochMotz.cxx              | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
index 83b381e..91c6731 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
@@ -1,9 +1,9 @@
 #include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
 #include "PROPOSAL/Constants.h"
-#include "PROPOSAL/math/RandomGenerator.h"
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <random>
 
 using namespace PROPOSAL;
 
@@ -34,9 +34,12 @@ secondaries::BremsKochMotz::CalculateDirections(
         const Vector3D& init_direction, double energy, double photon_energy,
         const Component& c, std::vector<double>& rnd){
     // We do not know in advance how many random numbers we need, so use one
-    // passed random number to set the seed for a RNG to keep reproducibility
-    RandomGenerator internal_rnd_generator;
-    internal_rnd_generator.SetSeed(std::numeric_limits<int>::max() * rnd[0]);
+    // passed random number to set the seed for a RNG to keep reproducibility.
+    // This must be an engine of its own: RandomGenerator objects share one
+    // engine, so seeding one of them would reseed the library-wide stream
+    std::mt19937 internal_rnd_generator(
+            static_cast<int>(std::numeric_limits<int>::max() * rnd[0]));
+    std::uniform_real_distribution<double> uniform(0., 1.);
 
     // Based on "Improved bremsstrahlung photon angular sampling in the EGS4
     // code system" (PIRS-0203), algorithm given in chapter (2.1)
@@ -45,10 +48,10 @@ secondaries::BremsKochMotz::CalculateDirections(
     auto Z = c.GetNucCharge();
     double phi, x_hat, g_max;
     do {
-        phi = CalculatePhiCandidate(E_0, internal_rnd_generator.RandomDouble());
+        phi = CalculatePhiCandidate(E_0, uniform(internal_rnd_generator));
         x_hat = std::pow(E_0 * phi, 2);
         g_max = N(E, E_0, Z) * g(x_hat, E, E_0, Z);
-    } while (internal_rnd_generator.RandomDouble() > g_max);
+    } while (uniform(internal_rnd_generator) > g_max);
     auto cosphi = std::cos(phi);
     auto theta = rnd[1] * 2. * PI;
     auto dir_photon = Cartesian3D(init_direction);
-- 
2.43.0


From 20da2cc94a6182cdb68c8dca8c7b43eb417b9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 25/42] fix: hash the name of WeakCooperSarkarMertsch, not the
 address of its literal

---
 .../parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx
index cd53318..33126bf 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx
@@ -10,7 +10,7 @@ using namespace PROPOSAL;
 size_t secondaries::WeakCooperSarkarMertsch::generate_hash(const ParticleDef& p,
                                                            const Medium& m) {
     size_t hash = 0;
-    hash_combine(hash, p.GetHash(), m.GetHash(), "secondaries_coopersarkarmertsch");
+    hash_combine(hash, p.GetHash(), m.GetHash(), std::string("secondaries_coopersarkarmertsch"));
     return hash;
 }
 
-- 
2.43.0


From b76a3fa4068f5607ad05339e7b970ab07b8a981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 26/42] fix: asking a cross section for an unknown target
 throws instead of inserting and dereferencing a null entry

---
 .../PROPOSAL/crosssection/CrossSection.h         | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index 6ab98eb..77274ed 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -276,8 +276,8 @@ protected:
     double CalculateStochasticLoss_impl(
         size_t target_hash, double E, double rate, std::false_type)
     {
-        return std::get<1>((*dndx)[target_hash])
-            ->GetUpperLimit(E, rate * std::get<0>((*dndx)[target_hash]));
+        return std::get<1>(dndx->at(target_hash))
+            ->GetUpperLimit(E, rate * std::get<0>(dndx->at(target_hash)));
     }
 
     double CalculateStochasticLoss_impl(size_t, double, double, std::true_type)
@@ -291,8 +291,8 @@ public:
         auto dNdx_all = 0.;
         if (dndx)
             for (auto& it : *dndx) {
-                dNdx_all += std::get<1>((*dndx)[it.first])->Calculate(E)
-                    / std::get<0>((*dndx)[it.first]);
+                dNdx_all += std::get<1>(dndx->at(it.first))->Calculate(E)
+                    / std::get<0>(dndx->at(it.first));
             }
         return dNdx_all;
     };
@@ -300,8 +300,8 @@ public:
     double CalculatedNdx(double E, size_t target_hash) override
     {
         if (dndx)
-            return std::get<1>((*dndx)[target_hash])->Calculate(E)
-                / std::get<0>((*dndx)[target_hash]);
+            return std::get<1>(dndx->at(target_hash))->Calculate(E)
+                / std::get<0>(dndx->at(target_hash));
         return 0.;
     };
 
@@ -309,8 +309,8 @@ public:
         double E, size_t hash, double v) override
     {
         if (dndx)
-            return std::get<1>((*dndx)[hash])->Calculate(E, v)
-                / std::get<0>((*dndx)[hash]);
+            return std::get<1>(dndx->at(hash))->Calculate(E, v)
+                / std::get<0>(dndx->at(hash));
         return 0.;
     }
 
-- 
2.43.0


From f165fbc799befc6aacb391088e9362a042b42a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 27/42] fix: an integration no longer depends on the random
 ratio or integrand of an earlier one

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index a3355c8..7883b10 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -1087,6 +1087,7 @@ double Integral::InitIntegralOpenedAndClosed(double min, double max, std::functi
     this->max_           = max;
     integrand_           = integrand;
     powerOfSubstitution_ = 0;
+    randomNumber_        = 0;
     randomDo_            = false;
 
     return aux;
@@ -1201,7 +1202,7 @@ double Integral::IntegrateWithSubstitution(double min,
 
     aux = InitIntegralWithSubstitution(min, max, integrand, powerOfSubstitution);
 
-    if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
+    if (aux == 0 || std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
     {
         return 0;
     }
@@ -1459,7 +1460,7 @@ double Integral::IntegrateWithLogSubstitution(double min,
 
     aux = InitIntegralWithLogSubstitution(min, max, integrand, powerOfSubstitution);
 
-    if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
+    if (aux == 0 || std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
     {
         return 0;
     }
-- 
2.43.0


From 5e783c64964232819625a223f0864a8b9baedab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 28/42] fix: the state at an energy is searched within the
 distance of the continuous loss

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..c06df43 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -93,7 +93,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
                 displacement.normalize();
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
-- 
2.43.0


From 0555978badab43bdb068109824e6fe959c285fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 29/42] fix: the time of a re-propagated state is that of the
 grammage, as in the propagation

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index c06df43..77387f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -310,7 +310,7 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -335,7 +335,7 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From fce6a30bd7e9c83a1ad6a9bcbc57b1d2dfb6d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 30/42] fix: asking for stochastic losses of an unknown
 interaction throws

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 77387f1..8835084 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -431,7 +431,7 @@ std::vector<StochasticLoss> Secondaries::GetStochasticLosses(
         return p.second == interaction_type;
     });
     if (it == Type_Interaction_Name_Map.end())
-        Logging::Get("proposal.secondaries")->critical("Could not find interaction type {}", interaction_type);
+        throw std::invalid_argument("Could not find interaction type " + interaction_type);
 
     return GetStochasticLosses(it->first);
 }
-- 
2.43.0


From f9a2eb6277dea3d1f4d0272084520e40c51030e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 31/42] fix: energy lost in a geometry the track starts or ends
 in, or never enters

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 8835084..7b9baf1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -165,7 +165,13 @@ double Secondaries::GetELost(const Geometry& geometry) const
 {
     auto entry_point = GetEntryPoint(geometry);
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+    // without an entry point the track either started inside or never entered
+    if (!entry_point
+        && !geometry.IsInside(track_.front().position, track_.front().direction))
+        return 0;
+    auto energy_entry = entry_point ? entry_point->energy : track_.front().energy;
+    auto energy_exit = exit_point ? exit_point->energy : track_.back().energy;
+    return energy_entry - energy_exit;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 8dd1fdf7e3d8d1bb6eb7a2a99c1ac3991624f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 32/42] fix: a particle that leaves a cylinder through its hole
 gets its border crossings in order

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a80c66..e0c523c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -428,6 +428,12 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
                                     distance.second = t2;
                                 }
                             }
+
+                            // the particle may fly through the hole, hit the
+                            // inner barrel first and then leave through the
+                            // bottom or top surface
+                            if (distance.second > 0 && distance.second < distance.first)
+                                std::swap(distance.first, distance.second);
                         }
                     }
                     // The particle is inside the inner cylinder
-- 
2.43.0


From b69ef79f7b1f00d365acb4589ee624c8316ca39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 33/42] fix: the depth along a radial axis grows when moving
 away from its origin

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index a8dd40a..b22fbb6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -115,7 +115,7 @@ double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& dire
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
-- 
2.43.0


From b4fedbdc83896eeb251305183b6fda0ac7191f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:58 +0000
Subject: [PATCH 34/42] fix: columns along directions in which the depth does
 not change are finite

---
 .../detail/PROPOSAL/density_distr/density_exponential.cxx    | 5 +++++
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx     | 4 +++-
 .../detail/PROPOSAL/density_distr/density_splines.cxx        | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..df2db89 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,6 +48,9 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
+    if (delta == 0)
+        return res / Evaluate(xi); // the depth does not change
+
     double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
 
     if (std::isnan(aux))
@@ -67,6 +70,8 @@ double Density_exponential::Integrate(const Vector3D& xi,
 double Density_exponential::Calculate(const Vector3D& xi,
                                       const Vector3D& direction,
                                       double distance) const {
+    if (GetEffectiveDistance(xi, direction) == 0)
+        return Evaluate(xi) * distance; // the depth does not change
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 50cfad1..8171fc7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -61,7 +61,7 @@ double Density_polynomial::Helper_function(const Vector3D& xi,
                                            const Vector3D& direction,
                                            double res,
                                            double l) const {
-    return Integrate(xi, direction, 0) - Integrate(xi, direction, l) + res;
+    return res - Calculate(xi, direction, l);
 }
 
 double Density_polynomial::helper_function(const Vector3D& xi,
@@ -105,6 +105,8 @@ double Density_polynomial::Integrate(const Vector3D& xi,
 double Density_polynomial::Calculate(const Vector3D& xi,
                                      const Vector3D& direction,
                                      double distance) const {
+    if (axis_->GetEffectiveDistance(xi, direction) == 0)
+        return Evaluate(xi) * distance; // the depth does not change
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index eb85f1b..8889c66 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -67,7 +67,7 @@ double Density_splines::Helper_function(const Vector3D& xi,
                                         const Vector3D& direction,
                                         double res,
                                         double l) const {
-    return Integrate(xi, direction, 0) - Integrate(xi, direction, l) + res;
+    return res - Calculate(xi, direction, l);
 }
 
 double Density_splines::helper_function(const Vector3D& xi,
@@ -108,6 +108,8 @@ double Density_splines::Integrate(const Vector3D& xi,
 double Density_splines::Calculate(const Vector3D& xi,
                                   const Vector3D& direction,
                                   double distance) const {
+    if (axis_->GetEffectiveDistance(xi, direction) == 0)
+        return Evaluate(xi) * distance; // the depth does not change
     return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
 }
 
-- 
2.43.0


From f780b69b685e4e70b2f7e07720811b9f8295d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:54 +0000
Subject: [PATCH 35/42] fix: a polynomial without coefficients (derivative of a
 constant) is zero

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 1cd3787..43a2783 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -59,6 +59,9 @@ bool Polynom::operator!=(const Polynom& polynom) const {
 }
 
 double Polynom::evaluate(double x) {
+    if (N_ == 0)
+        return 0; // derivative of a constant
+
     double aux = coeff_[N_ - 1];
 
     for (int i = N_ - 2; i >= 0; --i)
-- 
2.43.0


From 6dab1cb3ee7863a0088b81822257735a69eaecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:35 +0000
Subject: [PATCH 36/42] fix: give every numeric member a value in the
 constructors that left it indeterminate

---
 .../CrossSectionDE2DX/CrossSectionDE2DX.h     |  2 +-
 .../parametrization/EpairProduction.h         |  2 +-
 .../parametrization/Photonuclear.h            |  2 +-
 src/PROPOSAL/PROPOSAL/medium/Components.h     |  8 +++----
 src/PROPOSAL/PROPOSAL/medium/Medium.h         | 24 +++++++++----------
 .../propagation_utility/Displacement.h        |  4 ++--
 .../propagation_utility/InteractionBuilder.h  |  2 +-
 .../PropagationUtilityIntegral.h              |  4 ++--
 .../PropagationUtilityInterpolant.h           |  2 +-
 .../PROPOSAL/propagation_utility/Time.h       |  2 +-
 .../multiple_scattering/Parametrization.h     |  2 +-
 11 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DX.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DX.h
index 4e6b1b6..ce5ec24 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DX.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DX.h
@@ -18,7 +18,7 @@ class CrossSectionDE2DX {
 protected:
     size_t hash;
     std::shared_ptr<spdlog::logger> logger;
-    double lower_energy_lim;
+    double lower_energy_lim = 0.;
 
     CrossSectionDE2DX(size_t _hash);
 
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/parametrization/EpairProduction.h b/src/PROPOSAL/PROPOSAL/crosssection/parametrization/EpairProduction.h
index 14cee10..68f8821 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/parametrization/EpairProduction.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/parametrization/EpairProduction.h
@@ -63,7 +63,7 @@ namespace crosssection {
 
     protected:
         std::shared_ptr<EpairLPM> lpm_;
-        double density_correction_; // correction to standard medium density for LPM
+        double density_correction_ = 1.0; // correction to standard medium density for LPM
 
     public:
         EpairProduction(bool lpm = false);
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h b/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h
index 5ac1018..cfefa35 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h
@@ -41,7 +41,7 @@ namespace PROPOSAL {
 namespace crosssection {
     class RealPhoton {
     protected:
-        size_t hash;
+        size_t hash = 0;
 
     public:
         RealPhoton() = default;
diff --git a/src/PROPOSAL/PROPOSAL/medium/Components.h b/src/PROPOSAL/PROPOSAL/medium/Components.h
index cc30f13..a390689 100644
--- a/src/PROPOSAL/PROPOSAL/medium/Components.h
+++ b/src/PROPOSAL/PROPOSAL/medium/Components.h
@@ -103,9 +103,9 @@ protected:
 
     // Passed to constructor
     std::string name_;
-    double nucCharge_;      ///< nucleus charge
-    double atomicNum_;      ///< molar mass [g/mol]
-    double atomInMolecule_; ///< number of atoms in a molecule
+    double nucCharge_ = 0.;      ///< nucleus charge
+    double atomicNum_ = 0.;      ///< molar mass [g/mol]
+    double atomInMolecule_ = 0.; ///< number of atoms in a molecule
 
     // Calculated in constructor
     double logConstant_ = 0;          ///< radiation logarithm constant B
@@ -113,7 +113,7 @@ protected:
     double averageNucleonWeight_ = 0; ///< average nucleon weight in a nucleus
                                       ///< [MeV]
     double wood_saxon_ = 0;           ///< Woods-Saxon potential factor
-    size_t hash;
+    size_t hash = 0;
 
 private:
     static std::unique_ptr<std::map<size_t, Component>> component_map;
diff --git a/src/PROPOSAL/PROPOSAL/medium/Medium.h b/src/PROPOSAL/PROPOSAL/medium/Medium.h
index b0153bc..a17c20c 100644
--- a/src/PROPOSAL/PROPOSAL/medium/Medium.h
+++ b/src/PROPOSAL/PROPOSAL/medium/Medium.h
@@ -94,22 +94,22 @@ protected:
     // Protected member
     std::string name_;
 
-    int numComponents_; ///< number of components
+    int numComponents_ = 0; ///< number of components
 
-    double sumCharge_; ///< sum of charges of all nuclei
+    double sumCharge_ = 0.; ///< sum of charges of all nuclei
 
-    double ZA_;          // <Z/A>
-    double I_;           // mean excitation energy [eV]
-    double C_, a_;       //< ionization formula constants
-    double m_, X0_, X1_; //< ionization formula constants (continued)
-    double d0_;          // sternheimer et al density effect parameters
+    double ZA_ = 0.;                    // <Z/A>
+    double I_ = 0.;                     // mean excitation energy [eV]
+    double C_ = 0., a_ = 0.;            //< ionization formula constants
+    double m_ = 0., X0_ = 0., X1_ = 0.; //< ionization formula constants (continued)
+    double d0_ = 0.;                    // sternheimer et al density effect parameters
 
-    double massDensity_;     ///< mass density (20° C, 1 atm) [g/cm3]
-    double molDensity_;      ///< molecule density [number/cm3]
-    double radiationLength_; ///< radiation length [cm]
+    double massDensity_ = 0.;     ///< mass density (20° C, 1 atm) [g/cm3]
+    double molDensity_ = 0.;      ///< molecule density [number/cm3]
+    double radiationLength_ = 0.; ///< radiation length [cm]
 
-    double MM_;          ///< average all-component nucleon weight
-    double sumNucleons_; ///< sum of nucleons of all nuclei
+    double MM_ = 0.;          ///< average all-component nucleon weight
+    double sumNucleons_ = 0.; ///< sum of nucleons of all nuclei
 
     std::vector<Component> components_; ///< Components of Medium
 
diff --git a/src/PROPOSAL/PROPOSAL/propagation_utility/Displacement.h b/src/PROPOSAL/PROPOSAL/propagation_utility/Displacement.h
index aeae790..a3fd243 100644
--- a/src/PROPOSAL/PROPOSAL/propagation_utility/Displacement.h
+++ b/src/PROPOSAL/PROPOSAL/propagation_utility/Displacement.h
@@ -13,8 +13,8 @@ class Displacement {
 protected:
     using crossbase_list_t = std::vector<std::shared_ptr<CrossSectionBase>>;
     crossbase_list_t cross_list;
-    double lower_lim;
-    size_t hash;
+    double lower_lim = 0.;
+    size_t hash = 0;
 
 public:
     Displacement() = default;
diff --git a/src/PROPOSAL/PROPOSAL/propagation_utility/InteractionBuilder.h b/src/PROPOSAL/PROPOSAL/propagation_utility/InteractionBuilder.h
index a533cdf..2a46b14 100644
--- a/src/PROPOSAL/PROPOSAL/propagation_utility/InteractionBuilder.h
+++ b/src/PROPOSAL/PROPOSAL/propagation_utility/InteractionBuilder.h
@@ -18,7 +18,7 @@ class InteractionBuilder : public Interaction {
         = cubic_splines::Interpolant<cubic_splines::CubicSplines<double>>;
     using interpolant_ptr = std::shared_ptr<interpolant_t>;
     interpolant_ptr rate_interpolant_;
-    double rate_lower_energy_lim;
+    double rate_lower_energy_lim = 0.;
 
     interpolant_ptr InitializeRateInterpolant();
 
diff --git a/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityIntegral.h b/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityIntegral.h
index 14a41fb..e9d4b5f 100644
--- a/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityIntegral.h
@@ -36,9 +36,9 @@ class UtilityIntegral {
     Integral integral;
 
 protected:
-    double lower_lim;
+    double lower_lim = 0.;
     std::function<double(double)> FunctionToIntegral;
-    size_t hash;
+    size_t hash = 0;
 
 public:
     UtilityIntegral() = default;
diff --git a/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h b/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h
index f183fe8..11b25fd 100644
--- a/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h
+++ b/src/PROPOSAL/PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h
@@ -46,7 +46,7 @@ class UtilityInterpolant : public UtilityIntegral {
 
     double lower_lim;
     interpolant_ptr interpolant_;
-    bool reverse_;
+    bool reverse_ = false;
 
     // maybe interpolate function to integral will give a performance boost.
     // in general this function should be underfrequently called
diff --git a/src/PROPOSAL/PROPOSAL/propagation_utility/Time.h b/src/PROPOSAL/PROPOSAL/propagation_utility/Time.h
index a35b67b..2723bd3 100644
--- a/src/PROPOSAL/PROPOSAL/propagation_utility/Time.h
+++ b/src/PROPOSAL/PROPOSAL/propagation_utility/Time.h
@@ -10,7 +10,7 @@ namespace PROPOSAL {
 class Time {
 
 protected:
-    double mass;
+    double mass = 0.;
 
 public:
     Time() = default;
diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Parametrization.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Parametrization.h
index 6a33f0f..faa0aa0 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Parametrization.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Parametrization.h
@@ -50,7 +50,7 @@ namespace multiple_scattering {
 
     class Parametrization {
     protected:
-        double mass;
+        double mass = 0.;
 
     public:
         Parametrization() = default;
-- 
2.43.0


From a72832194e769c64557635d369356d81d4a9d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:06 +0000
Subject: [PATCH 37/42] fix: particle definitions with different hard component
 tables had the same hash

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index d205934..59a31ca 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -250,6 +250,9 @@ bool ParticleDef::operator!=(const ParticleDef& def) const
 size_t ParticleDef::GetHash() const{
     size_t hash_digest = 0;
     hash_combine(hash_digest, mass, low, lifetime, charge, weak_partner);
+    for (auto const& coefficients : hard_component_table)
+        for (auto coefficient : coefficients)
+            hash_combine(hash_digest, coefficient);
     return hash_digest;
 }
 
-- 
2.43.0


From 090e9283ceedb9a0d58d491a3440cf5ac162eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 38/42] fix: time tables of different masses shared one file
 name

---
 .../PROPOSAL/propagation_utility/TimeBuilder.cxx   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx
index 01e784e..6b680ba 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/TimeBuilder.cxx
@@ -1,14 +1,24 @@
 #include "PROPOSAL/propagation_utility/TimeBuilder.h"
 #include "PROPOSAL/Constants.h"
+#include "PROPOSAL/methods.h"
 #include "PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h"
 
 using namespace PROPOSAL;
 
+namespace {
+size_t generate_time_hash(Displacement const& disp, double mass)
+{
+    size_t hash = disp.GetHash();
+    hash_combine(hash, mass);
+    return hash;
+}
+} // namespace
+
 ExactTimeBuilder::ExactTimeBuilder(
     std::shared_ptr<Displacement> _disp, double _mass, std::false_type)
     : Time(_mass)
     , disp(_disp)
-    , hash(disp->GetHash())
+    , hash(generate_time_hash(*disp, mass))
     , time_integral(std::make_unique<UtilityIntegral>(
           [this](double E) { return FunctionToIntegral(E); },
           _disp->GetLowerLim(), this->GetHash()))
@@ -19,7 +29,7 @@ ExactTimeBuilder::ExactTimeBuilder(
     std::shared_ptr<Displacement> _disp, double _mass, std::true_type)
     : Time(_mass)
     , disp(_disp)
-    , hash(disp->GetHash())
+    , hash(generate_time_hash(*disp, mass))
     , time_integral(std::make_unique<UtilityInterpolant>(
           [this](double E) { return FunctionToIntegral(E); },
           _disp->GetLowerLim(), this->GetHash()))
-- 
2.43.0


From d3ae91828dd3ef30373f3480b10869e81b1949e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:06 +0000
Subject: [PATCH 39/42] fix: RequiredRandomNumbers dereferences the end of the
 map for an unregistered interaction type

---
 .../PROPOSAL/secondaries/SecondariesCalculator.h         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
index 51b93d6..45f160f 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
@@ -4,6 +4,7 @@
 #include "PROPOSAL/secondaries/parametrization/Parametrization.h"
 
 #include <memory>
+#include <stdexcept>
 #include <unordered_map>
 #include <vector>
 
@@ -56,9 +57,13 @@ public:
     //!
     //! Returns number required for calculation of a specific interactiontype.
     //!
-    inline size_t RequiredRandomNumbers(InteractionType type) const noexcept
+    inline size_t RequiredRandomNumbers(InteractionType type) const
     {
-        return secondary_generator.find(type)->second->RequiredRandomNumbers();
+        auto it = secondary_generator.find(type);
+        if (it == secondary_generator.end())
+            throw std::logic_error("No secondary calculator for this "
+                                   "interaction type available.");
+        return it->second->RequiredRandomNumbers();
     }
 
     //!
-- 
2.43.0


From abdb65312b28df636d7faf06878fdd2659a78fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:06 +0000
Subject: [PATCH 40/42] fix: error messages look up the name of an interaction
 type that has none

---
 src/PROPOSAL/PROPOSAL/DefaultFactory.h                        | 4 +++-
 .../detail/PROPOSAL/secondaries/SecondariesCalculator.cxx     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/DefaultFactory.h b/src/PROPOSAL/PROPOSAL/DefaultFactory.h
index 49eab32..8285d48 100644
--- a/src/PROPOSAL/PROPOSAL/DefaultFactory.h
+++ b/src/PROPOSAL/PROPOSAL/DefaultFactory.h
@@ -47,9 +47,11 @@ public:
         auto it = m->find(t);
         if (it != m->end())
             return it->second(args...);
+        auto name = Type_Interaction_Name_Map.find(t);
         std::ostringstream s;
         s << "No builder for this interaction type ("
-          << Type_Interaction_Name_Map.find(t)->second << ") available.";
+          << (name != Type_Interaction_Name_Map.end() ? name->second : "unknown")
+          << ") available.";
         throw std::logic_error(s.str());
     }
 };
diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
index 442399d..7b45056 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
@@ -9,8 +9,10 @@ std::vector<ParticleState> SecondariesCalculator::CalculateSecondaries(
     auto it = secondary_generator.find(type);
     if (it != secondary_generator.end())
         return it->second->CalculateSecondaries(loss, comp, rnd);
+    auto name = Type_Interaction_Name_Map.find(type);
     std::ostringstream s;
     s << "No secondary calculator for interaction type ("
-        << Type_Interaction_Name_Map.find(type)->second << ") available.";
+        << (name != Type_Interaction_Name_Map.end() ? name->second : "unknown")
+        << ") available.";
     throw std::logic_error(s.str());
 }
-- 
2.43.0


From 70f1fee152baffac0d8a696d14ca24702b83af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:58 +0000
Subject: [PATCH 41/42] fix: weak interaction: degenerate kinematic range below
 the minimal momentum transfer

For energies below 63 MeV the lower limit 1e6 MeV^2 / (2 M E + M^2)
exceeds one, so the limits returned were in reverse order. As in the
other processes the range now degenerates to a point there.
---
 .../PROPOSAL/crosssection/parametrization/WeakInteraction.cxx   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
index aa41e08..3f47d0b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
@@ -27,6 +27,8 @@ crosssection::KinematicLimits crosssection::WeakInteraction::GetKinematicLimits(
     auto kin_lim = KinematicLimits();
     kin_lim.v_min = 1e6 / (aux); // q^2_min = 1e6 MeV for experimental reasons
     kin_lim.v_max = 1.f;
+    if (kin_lim.v_max < kin_lim.v_min)
+        kin_lim.v_max = kin_lim.v_min;
     return kin_lim;
 }
 
-- 
2.43.0


From 84db41e4a8e8c638b2c31dc4f39e0f66b5987f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:10 +0000
Subject: [PATCH 42/42] fix: NewtonRaphson returns an exact root where the
 derivative vanishes instead of NaN

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 46208bb..5d234d9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -199,6 +199,10 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            // exact root, also where the derivative vanishes
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
-- 
2.43.0

