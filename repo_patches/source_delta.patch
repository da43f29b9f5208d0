From 78939d0ddcfc1049106408c9379a5508d6f09d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:58 +0000
Subject: [PATCH 001/141] fix: signed bit-vector remainder and modulus with
 negative operands

---
 src/carl/formula/bitvector/BVValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 4218f1e..48873cd 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -83,7 +83,7 @@ BVValue BVValue::remSigned(const BVValue& _other) const {
 	} else if (!firstNegative && secondNegative) {
 		return (*this) % -_other;
 	} else {
-		return -((*this) % -_other);
+		return -(-(*this) % -_other);
 	}
 }
 
@@ -105,7 +105,7 @@ BVValue BVValue::modSigned(const BVValue& _other) const {
 	} else if (firstNegative && !secondNegative) {
 		return -u + _other;
 	} else if (!firstNegative && secondNegative) {
-		return (*this) + _other;
+		return u + _other;
 	} else {
 		return -u;
 	}
-- 
2.43.0


From 27b95ccf100d603132b5f35f2e998c05540a5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:49 +0000
Subject: [PATCH 002/141] fix: Term::divide(Monomial) reported success for a
 constant term and a non-constant monomial

---
 src/carl/core/Term.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.tpp b/src/carl/core/Term.tpp
index 6403d06..7deec99 100644
--- a/src/carl/core/Term.tpp
+++ b/src/carl/core/Term.tpp
@@ -99,6 +99,7 @@ bool Term<Coefficient>::divide(const Monomial::Arg& m, Term& res) const
 		}
 		return false;
 	}
+	if (m) return false;
 	res = *this;
 	return true;
 }
-- 
2.43.0


From d7c879a6b9705c66a91c506e5e0d92d348f56183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:38 +0000
Subject: [PATCH 003/141] fix: subtractProduct subtracted twice from the zero
 polynomial

---
 src/carl/core/MultivariatePolynomial.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7a3f3ea..9ef47b9 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -380,11 +380,12 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 	assert(this->isConsistent());
 	assert(p.isConsistent());
 	if (carl::isZero(p)) return;
+	if (carl::isZero(factor.coeff())) return;
 	if (carl::isZero(*this)) {
 		*this = - factor * p;
         assert(this->isConsistent());
+		return;
 	}
-	if (carl::isZero(factor.coeff())) return;
 	if (p.nrTerms() == 1) {
 		for (const auto& t: p) {
 			this->addTerm(- factor * t);
-- 
2.43.0


From a90cc909fcd5f2fb9b314a19205af9a8e0f68c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:38 +0000
Subject: [PATCH 004/141] fix: addTerm lost or misplaced terms below the
 leading term

---
 src/carl/core/MultivariatePolynomial.tpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 9ef47b9..ed0af78 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -412,6 +412,11 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 template<typename Coeff, typename Ordering, typename Policies>
 void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>& term) {
 	//std::cout << *this << " + " << term << std::endl;
+	if (carl::isZero(term)) return;
+	if (mTerms.empty()) {
+		mTerms.push_back(term);
+		return;
+	}
 	if (term.isConstant()) {
 		if (hasConstantTerm()) {
 			trailingTerm().coeff() += term.coeff();
@@ -424,18 +429,15 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 	if (mOrdered) {
 		auto it = mTerms.begin();
 		for (; it != mTerms.end(); it++) {
-			CompareResult res = Ordering::compare(term, *it);
-			switch (res) {
-			case CompareResult::LESS: break;
-			case CompareResult::EQUAL: {
+			CompareResult res = Ordering::compare(term.monomial(), it->monomial());
+			if (res == CompareResult::LESS) break;
+			if (res == CompareResult::EQUAL) {
 				it->coeff() += term.coeff();
 				if (carl::isZero(it->coeff())) {
 					mTerms.erase(it);
 				}
 				return;
 			}
-			case CompareResult::GREATER: ;
-			}
 		}
 		mTerms.insert(it, term);
 	} else {
@@ -462,9 +464,8 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 					return;
 				}
 			}
-			auto lt = mTerms.back();
 			mTerms.push_back(term);
-			std::swap(lt, mTerms.back());
+			std::swap(mTerms[mTerms.size()-2], mTerms.back());
 		}
 		}
 	}
-- 
2.43.0


From 1099d5f7d03a3bedd73d2815f51dfc5d609cd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:38 +0000
Subject: [PATCH 005/141] fix: subtracting a constant term duplicated the
 constant part

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index ed0af78..6774f2e 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -901,6 +901,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 {
 	///@todo Check if this works with ordering.
 	if (carl::isZero(rhs.coeff())) return *this;
+	if (rhs.isConstant()) return *this -= rhs.coeff();
 	CARL_LOG_TRACE("carl.core", *this << " -= " << rhs);
 	if (Policies::searchLinear)
 	{
-- 
2.43.0


From 06941c39960e49c5c689665cc4a49b9d0b868eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:38 +0000
Subject: [PATCH 006/141] fix: adding the constant monomial to a polynomial
 duplicated the constant part

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 6774f2e..4aa3954 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -763,6 +763,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff, Ordering, Policies>::operator+=(const Monomial::Arg& rhs)
 {
+	if (!rhs) return *this += constant_one<Coeff>::get();
 	if (mTerms.empty()) {
 		// Empty -> just insert.
 		mTerms.emplace_back(constant_one<Coeff>::get(), rhs);
-- 
2.43.0


From c1c2c1248928e38468d524be368410e62170e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:38 +0000
Subject: [PATCH 007/141] fix: multiplying a polynomial by a zero term left
 zero terms behind

---
 src/carl/core/MultivariatePolynomial.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 4aa3954..d461118 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -1058,6 +1058,10 @@ template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff,Ordering,Policies>& MultivariatePolynomial<Coeff,Ordering,Policies>::operator*=(const Term<Coeff>& rhs)
 {
 	assert(this->isConsistent());
+	if (carl::isZero(rhs)) {
+		mTerms.clear();
+		return *this;
+	}
 	///@todo more efficient.
 	TermsType newTerms;
 	newTerms.reserve(mTerms.size());
-- 
2.43.0


From bfe2ae3370318bc69deaf156f988743618310ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:21 +0000
Subject: [PATCH 008/141] fix: zeroth power of the zero multivariate polynomial

---
 src/carl/core/polynomialfunctions/Power.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Power.h b/src/carl/core/polynomialfunctions/Power.h
index 111dc2f..0a3e156 100644
--- a/src/carl/core/polynomialfunctions/Power.h
+++ b/src/carl/core/polynomialfunctions/Power.h
@@ -40,8 +40,8 @@ Term<Coeff> pow(const Term<Coeff>& t, uint exp) {
 template<typename C, typename O, typename P>
 MultivariatePolynomial<C,O,P> pow(const MultivariatePolynomial<C,O,P>& p, std::size_t exp) {
 	//std::cout << "pw(" << *this << " ^ " << exp << ")" << std::endl;
-	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 0) return MultivariatePolynomial<C,O,P>(constant_one<C>::get());
+	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 1) return MultivariatePolynomial<C,O,P>(p);
 	if (exp == 2) return p*p;
 	MultivariatePolynomial<C,O,P> res(constant_one<C>::get());
-- 
2.43.0


From c342564cb2253d50b4d2d0e252286add02d3a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 009/141] fix: the denominator of an mpz_class is one

---
 src/carl/numbers/adaption_gmpxx/operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/adaption_gmpxx/operations.h b/src/carl/numbers/adaption_gmpxx/operations.h
index 4cbfc99..68db3a7 100644
--- a/src/carl/numbers/adaption_gmpxx/operations.h
+++ b/src/carl/numbers/adaption_gmpxx/operations.h
@@ -92,8 +92,8 @@ inline mpz_class getDenom(const mpq_class& n) {
 	return n.get_den();
 }
 
-inline mpz_class getDenom(const mpz_class& n) {
-	return n;
+inline mpz_class getDenom(const mpz_class&) {
+	return mpz_class(1);
 }
 
 inline bool isInteger(const mpq_class& n) {
-- 
2.43.0


From b25f0dd98e24b97098cdc4091c7a825172cec137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:14 +0000
Subject: [PATCH 010/141] fix: reject rationals with zero denominator when
 parsing

---
 src/carl/numbers/parser/parser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/carl/numbers/parser/parser.h b/src/carl/numbers/parser/parser.h
index fc29c59..382be55 100644
--- a/src/carl/numbers/parser/parser.h
+++ b/src/carl/numbers/parser/parser.h
@@ -111,13 +111,15 @@ namespace parser {
 	template<typename T, typename Iterator = std::string::const_iterator>
 	struct RationalParser: public qi::grammar<Iterator, T(), Skipper> {
 		RationalParser(): RationalParser::base_type(main, "rational") {
-			main = (number >> -(qi::lit('/') >> number))[qi::_val = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_1, qi::_2)];
+			main = (number >> -(qi::lit('/') >> number))[qi::_pass = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_val, qi::_1, qi::_2)];
 		}
 		DecimalParser<T> number;
 		qi::rule<Iterator, T(), Skipper> main;
-		T makeRational(const T& a, const boost::optional<T>& b) const {
-			if (!b) return a;
-			return a / *b;
+		/// Stores the quotient in res, fails if the denominator is zero.
+		bool makeRational(T& res, const T& a, const boost::optional<T>& b) const {
+			if (b && isZero(*b)) return false;
+			res = b ? T(a / *b) : a;
+			return true;
 		}
 	};
 	
-- 
2.43.0


From fdc5ace0d546a1c46d82c8171ed4ed65645327a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:14 +0000
Subject: [PATCH 011/141] fix: keep returned factorizations valid when the
 cache grows

---
 src/carl/numbers/FactorizationFactory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/numbers/FactorizationFactory.h b/src/carl/numbers/FactorizationFactory.h
index db9b66d..a78a511 100644
--- a/src/carl/numbers/FactorizationFactory.h
+++ b/src/carl/numbers/FactorizationFactory.h
@@ -4,6 +4,7 @@
 
 #include <boost/optional.hpp>
 
+#include <deque>
 #include <vector>
 
 namespace carl {
@@ -25,7 +26,8 @@ template<>
 class FactorizationFactory<uint> {
 private:
 	PrimeFactory<uint> mPrimes;
-	std::vector<boost::optional<std::vector<uint>>> mCache;
+	// A deque keeps references to cached factorizations valid when it grows.
+	std::deque<boost::optional<std::vector<uint>>> mCache;
 public:
 	FactorizationFactory() {
 		mCache.emplace_back(std::vector<uint>({}));
-- 
2.43.0


From a8180f44e7e63763f957fce814b5ec4626ce6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:14 +0000
Subject: [PATCH 012/141] fix: symmetric residues for even field sizes and
 negative numbers

Also compute the field size in the integer type of the field instead of
unsigned, which overflows for large fields.
---
 src/carl/numbers/GaloisField.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index defe330..a618b20 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -36,8 +36,7 @@ private:
 	const BaseIntType mP;
 	const BaseIntType mK;
 	const IntegerType mPK; // = mP ^ mK
-	const IntegerType mMaxValue; // = (mPK-1) / 2
-	const IntegerType mModulus; // = (mPK+1) / 2 = mMaxValue + 1
+	const IntegerType mMaxValue; // = mPK / 2
 	
 	public:
 	/**
@@ -48,9 +47,8 @@ private:
      */
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
-		mPK(pow(p,k)),
-		mMaxValue((mPK-1)/2),
-		mModulus(mMaxValue+1)
+		mPK(carl::pow(IntegerType(p),k)),
+		mMaxValue(mPK/2)
 	{ 
 	}
 	
@@ -79,11 +77,10 @@ private:
 	}
 	
 	IntegerType symmetricModulo(const IntegerType& n) const	{
-		if (n > mMaxValue) {
-			return carl::mod(IntegerType(n-mModulus), mPK) - mMaxValue;
-		} else {
-			return carl::mod(n, mPK);
-		}
+		IntegerType res = carl::mod(n, mPK);
+		if (res < 0) res += mPK;
+		if (res > mMaxValue) res -= mPK;
+		return res;
 	}
 	
 	friend bool operator==(const GaloisField& lhs, const GaloisField& rhs) {
-- 
2.43.0


From 3a2ba3615b0997ce7dd7f4b74c6b8a9dae9434bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:14 +0000
Subject: [PATCH 013/141] fix: in-place arithmetic of GFNumber

The operators left unreduced representatives, /= did nothing and *=
dereferenced a missing field.
---
 src/carl/numbers/GFNumber.h   |  6 ++----
 src/carl/numbers/GFNumber.tpp | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/carl/numbers/GFNumber.h b/src/carl/numbers/GFNumber.h
index 39209de..2146f1e 100644
--- a/src/carl/numbers/GFNumber.h
+++ b/src/carl/numbers/GFNumber.h
@@ -32,7 +32,7 @@ class GFNumber
 	}
 	
 	GFNumber(const GFNumber& n, const GaloisField<IntegerType>* gf):
-		mN(n.mN),
+		mN(gf == nullptr ? n.mN : gf->symmetricModulo(n.mN)),
 		mGf(gf)
 	{
 	}
@@ -49,9 +49,7 @@ class GFNumber
 	
 	void normalize()
 	{
-		if(isZero() || isUnit()) return;
-		assert(mGf != nullptr);
-		mGf->modulo(mN);
+		if (mGf != nullptr) mN = mGf->symmetricModulo(mN);
 	}
 	
 	bool isZero() const
diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index c546ea6..2a4cdb4 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -116,6 +116,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator ++()
 {
 	mN++;
+	normalize();
 	return *this;
 }
 
@@ -127,6 +128,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN += rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -134,6 +136,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const IntegerType& rhs)
 {
 	mN += rhs;
+	normalize();
 	return *this;
 }
 
@@ -159,17 +162,18 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 {
 	mN--;
+	normalize();
 	return *this;
 }
 
 template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 {
-	if (rhs.isZero()) return *this;
 	if (mGf == nullptr) {
 		mGf = rhs.mGf;
 	}
 	mN -= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -177,6 +181,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const IntegerType& rhs)
 {
 	mN -= rhs;
+	normalize();
 	return *this;
 }
 
@@ -201,8 +206,12 @@ GFNumber<IntegerT> operator*(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator *=(const GFNumber& rhs)
 {
-	assert(rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	assert(mGf == nullptr || rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	if (mGf == nullptr) {
+		mGf = rhs.mGf;
+	}
 	mN *= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -210,6 +219,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator *=(const IntegerType& rhs)
 {
 	mN *= rhs;
+	normalize();
 	return *this;
 }
 
@@ -226,9 +236,7 @@ GFNumber<IntegerT> operator/(const GFNumber<IntegerT>& lhs, const GFNumber<Integ
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator /=(const GFNumber<IntegerT>& rhs)
 {
-	assert(!rhs.isZero());
-	mN * rhs.inverse().mN;
-	return *this;
+	return *this = *this / rhs;
 }
 
 }
-- 
2.43.0


From 6559ec75e704ebc3b0fe4c6f34bf3959185d1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:14 +0000
Subject: [PATCH 014/141] fix: compare GFNumber with any member of its residue
 class

---
 src/carl/numbers/GFNumber.tpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index 2a4cdb4..e5dd60f 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -38,7 +38,7 @@ template<typename IntegerT>
 bool operator==(const GFNumber<IntegerT>& lhs, const IntegerT& rhs)
 {
 	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
@@ -48,12 +48,8 @@ bool operator==(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 bool operator==(const GFNumber<IntegerT>& lhs, int rhs)
 {
-	if(lhs.isZero() && rhs == 0) return true;
-	if(lhs.isUnit() && rhs == 1) return true;
-	if(lhs.isZero() && rhs != 0) return false;
-	if(lhs.isUnit() && rhs != 1) return false;
-	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	if(lhs.mGf == nullptr) return lhs.mN == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(int lhs, const GFNumber<IntegerT>& rhs)
-- 
2.43.0


From 41559b26343eb0cd557d1ee7f7cf7302101714af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 015/141] fix: sign of constant minus univariate polynomial

---
 src/carl/core/UnivariatePolynomial.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 162d281..c443087 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -592,7 +592,9 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return rhs - lhs;
+	UnivariatePolynomial<C> res(-rhs);
+	res += lhs;
+	return res;
 }
 
 template<typename Coefficient>
-- 
2.43.0


From 741f48f36d7355723958f037357d383cbdf7d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 016/141] fix: univariate polynomials from coefficient maps
 with single gaps

An exponent that skipped exactly one degree was stored one degree too
low, and an empty map was dereferenced.
---
 src/carl/core/UnivariatePolynomial.tpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index c443087..46065bf 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -117,13 +117,10 @@ template<typename Coeff>
 UnivariatePolynomial<Coeff>::UnivariatePolynomial(Variable mainVar, const std::map<uint, Coeff>& coefficients)
 : mMainVar(mainVar)
 {
-	mCoefficients.reserve(coefficients.rbegin()->first);
+	if (!coefficients.empty()) mCoefficients.reserve(coefficients.rbegin()->first + 1);
 	for (const auto& expAndCoeff : coefficients)
 	{
-		if(expAndCoeff.first != mCoefficients.size() + 1)
-		{
-			mCoefficients.resize(expAndCoeff.first, Coeff(0));
-		}
+		mCoefficients.resize(expAndCoeff.first, Coeff(0));
 		mCoefficients.push_back(expAndCoeff.second);
 	}
 	this->stripLeadingZeroes();
-- 
2.43.0


From e9b11eb991be85ae33f88f0b0fb6ef5e0b019d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 017/141] fix: reversing the coefficients of the zero
 polynomial

---
 src/carl/core/UnivariatePolynomial.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index 841720e..5a02334 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -448,9 +448,7 @@ public:
 	UnivariatePolynomial reverseCoefficients() const {
 		UnivariatePolynomial<Coefficient> res(*this);
 		std::reverse(res.mCoefficients.begin(), res.mCoefficients.end());
-		while(carl::isZero(*std::prev(res.mCoefficients.end())) && std::prev(res.mCoefficients.end()) != res.mCoefficients.begin()) {
-			res.mCoefficients.erase(std::prev(res.mCoefficients.end()));
-		}
+		res.stripLeadingZeroes();
 		assert(res.isConsistent());
 		return res;
 	}
-- 
2.43.0


From 45290df64814d18403bc9e9f4b30136367ef2f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 018/141] fix: multiplying the zero univariate polynomial by
 its main variable

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 46065bf..9ce5244 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -597,6 +597,7 @@ UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& r
 template<typename Coefficient>
 template<typename C, EnableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
@@ -607,6 +608,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=
 template<typename Coefficient>
 template<typename C, DisableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
-- 
2.43.0


From 164fd3200146a101c375d0537693025232ccbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 019/141] fix: leading zeros after reducing coefficients modulo
 a number

---
 src/carl/core/UnivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 9ce5244..2d6f82a 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -153,6 +153,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::mod(const
 	{
 		coeff = carl::mod(coeff, modulus);
 	}
+	stripLeadingZeroes();
 	return *this;
 }
 
-- 
2.43.0


From a65d8b3c0dcba5c8b576f4351d63da639e51e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 020/141] fix: toIntegerDomain for polynomials over finite
 fields

Residue classes always have an integer representative, but isInteger()
is false for them.
---
 src/carl/core/UnivariatePolynomial.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 2d6f82a..77a25f5 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -358,7 +358,6 @@ UnivariatePolynomial<typename IntegralType<Coeff>::type> UnivariatePolynomial<Co
 	res.mCoefficients.reserve(mCoefficients.size());
 	for(const Coeff& c : mCoefficients)
 	{
-		assert(carl::isInteger(c));
 		res.mCoefficients.push_back(c.representingInteger());
 	}
 	res.stripLeadingZeroes();
-- 
2.43.0


From a8c7147c19336a0dfdbc54dfb23f09a77288847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 021/141] fix: coprime factor of polynomials with zero
 coefficients

---
 src/carl/core/UnivariatePolynomial.tpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 77a25f5..21345b2 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -271,10 +271,10 @@ template<typename C, DisableIf<is_subset_of_rationals<C>>>
 typename UnderlyingNumberType<Coeff>::type UnivariatePolynomial<Coeff>::coprimeFactor() const
 {
 	assert(!carl::isZero(*this));
-	auto it = mCoefficients.begin();
-	typename UnderlyingNumberType<Coeff>::type factor = it->coprimeFactor();
-	for (++it; it != mCoefficients.end(); ++it) {
-		factor = carl::lcm(factor, it->coprimeFactor());
+	typename UnderlyingNumberType<Coeff>::type factor = lcoeff().coprimeFactor();
+	for (const auto& c : mCoefficients) {
+		if (carl::isZero(c)) continue;
+		factor = carl::lcm(factor, c.coprimeFactor());
 	}
 	return factor;
 }
-- 
2.43.0


From 00472c1c52e59e198eeb98339d9741fa5919f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:08 +0000
Subject: [PATCH 022/141] fix: primitive part of polynomials that are not
 normal

---
 src/carl/core/polynomialfunctions/PrimitivePart.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/PrimitivePart.h b/src/carl/core/polynomialfunctions/PrimitivePart.h
index bee7c53..f6be054 100644
--- a/src/carl/core/polynomialfunctions/PrimitivePart.h
+++ b/src/carl/core/polynomialfunctions/PrimitivePart.h
@@ -21,11 +21,8 @@ UnivariatePolynomial<Coeff> primitive_part(const UnivariatePolynomial<Coeff>& p)
 		// By definition
 		return p;
 	}
-	if (p.isNormal()) {
-		return p / carl::content(p);
-	} else {
-		return p / Coeff(-carl::content(p));
-	}
+	auto normal = p.normalized();
+	return normal / carl::content(normal);
 }
 
 /**
-- 
2.43.0


From cd26d8ee2c00cc25c57365fe09d429eec1e6b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:57 +0000
Subject: [PATCH 023/141] fix: release term collections when try_divide fails

---
 src/carl/core/polynomialfunctions/Division.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index 81d9333..c630242 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -98,6 +98,8 @@ bool try_divide(const MultivariatePolynomial<Coeff,Ordering,Policies>& dividend,
 			//p -= factor * divisor;
 			tam.template addTerm<true>(id, factor);
 		} else {
+			tam.dropTerms(id);
+			tam.dropTerms(thisid);
 			return false;
 		}
 	}
-- 
2.43.0


From b0bb4cc6f914e1193e797b35588a44e3d3bdf7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:57 +0000
Subject: [PATCH 024/141] fix: integer polynomial division for small dividends
 and vanishing leading coefficients

---
 src/carl/core/polynomialfunctions/Division.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index c630242..43dce5f 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -199,11 +199,14 @@ DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Co
 		DivisionResult<UnivariatePolynomial<Coeff>> result {UnivariatePolynomial<Coeff>(dividend.mainVar()), dividend};
 		if(carl::isZero(dividend)) return result;
 		assert(dividend == divisor * result.quotient + result.remainder);
+		if(divisor.degree() > dividend.degree()) return result;
 
 		std::vector<Coeff> coeffs(1+dividend.coefficients().size()-divisor.coefficients().size(), Coeff(0));
 
 		uint degdiff = dividend.degree() - divisor.degree();
 		for (std::size_t offset = 0; offset <= degdiff; offset++) {
+			// The remainder may have lost several leading coefficients at once.
+			if (result.remainder.coefficients().size() <= dividend.degree() - offset) continue;
 			Coeff factor = carl::quotient(result.remainder.coefficients()[dividend.degree()-offset], divisor.lcoeff());
 			result.remainder -= UnivariatePolynomial<Coeff>(dividend.mainVar(), factor, degdiff - offset) * divisor;
 			coeffs[degdiff-offset] += factor;
-- 
2.43.0


From 3cf764f81c48e4c28adbc908eff5ff116d21112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:57 +0000
Subject: [PATCH 025/141] fix: pseudo remainder of the zero polynomial

---
 src/carl/core/polynomialfunctions/Remainder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Remainder.h b/src/carl/core/polynomialfunctions/Remainder.h
index 4e1d413..7bd3fe9 100644
--- a/src/carl/core/polynomialfunctions/Remainder.h
+++ b/src/carl/core/polynomialfunctions/Remainder.h
@@ -106,7 +106,7 @@ UnivariatePolynomial<Coeff> pseudo_remainder(const UnivariatePolynomial<Coeff>&
 {
 	assert(dividend.mainVar() == divisor.mainVar());
 	Variable v = dividend.mainVar();
-	if (divisor.degree() == 0) return UnivariatePolynomial<Coeff>(v);
+	if (carl::isZero(dividend) || divisor.degree() == 0) return UnivariatePolynomial<Coeff>(v);
 	if (divisor.degree() > dividend.degree()) return dividend;
 
 	UnivariatePolynomial<Coeff> reduct = divisor;
-- 
2.43.0


From 5b718beeca60a335176de732ed951320816b5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:57 +0000
Subject: [PATCH 026/141] fix: constant factor after excluding linear factors

---
 src/carl/core/polynomialfunctions/Factorization_univariate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index c746554..eefad95 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -278,9 +278,9 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 							result *= factor;
 							CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: add the factor (" << UnivariatePolynomial<Coeff>(result.mainVar(), std::initializer_list<Coeff>({(Coeff)1/factor})) << ")^" << 1 );
 							// Add the constant factor to the factors.
-							if( is_constant(linearFactors.begin()->first) )
+							factor = Coeff(1) / factor;
+							if( !linearFactors.empty() && is_constant(linearFactors.begin()->first) )
 							{
-								factor = Coeff(1) / factor;
 								factor *= linearFactors.begin()->first.lcoeff();
 								linearFactors.erase(linearFactors.begin());
 							}
-- 
2.43.0


From d2853bbda77db500c6a9b021cd78faa1cb062c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:57 +0000
Subject: [PATCH 027/141] fix: Ducos strategy for subresultants

---
 src/carl/core/polynomialfunctions/Resultant.h | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Resultant.h b/src/carl/core/polynomialfunctions/Resultant.h
index 24d966b..436a77a 100644
--- a/src/carl/core/polynomialfunctions/Resultant.h
+++ b/src/carl/core/polynomialfunctions/Resultant.h
@@ -227,33 +227,34 @@ std::list<UnivariatePolynomial<Coeff>> subresultants(
 				// Ducos' optimization
 				Coeff lcoeffQ = q.lcoeff();
 				Coeff lcoeffC = c.lcoeff();
-				std::vector<Coeff> h(pDeg);
+				// Coefficient of variable^qDeg in f.
+				auto coeffAtQDeg = [qDeg](const UnivariatePolynomial<Coeff>& f) {
+					return f.coefficients().size() > qDeg ? f.coefficients()[qDeg] : Coeff(0);
+				};
+				const UnivariatePolynomial<Coeff> x(variable, Coeff(1), 1);
 
+				UnivariatePolynomial<Coeff> sum(variable);
 				for (uint d = 0; d < qDeg; d++) {
-					h[d] = lcoeffC * carl::pow(Coeff(variable), d);
-				}
-				if (pDeg != qDeg) { // => aDeg > bDeg
-					h[qDeg] = Coeff(lcoeffC * carl::pow(Coeff(variable), qDeg) - c); // H_e
+					sum += UnivariatePolynomial<Coeff>(variable, lcoeffC * p.coefficients()[d], d);
 				}
+				UnivariatePolynomial<Coeff> h = UnivariatePolynomial<Coeff>(variable, lcoeffC, qDeg) - c; // H_e
+				sum += h * p.coefficients()[qDeg];
 				for (uint d = qDeg + 1; d < pDeg; d++) {
-					Coeff t = h[d-1] * variable;
-					UnivariatePolynomial<Coeff> reducedNewB = carl::to_univariate_polynomial(t, variable).coefficients()[qDeg] * q;
-					bool res = carl::try_divide(reducedNewB, lcoeffQ, reducedNewB);
-					assert(res || is_constant(reducedNewB));
-					h[d] = Coeff(t - reducedNewB);
-				}
-
-				UnivariatePolynomial<Coeff> sum(p.mainVar(), h.front() * p.coefficients()[0]);
-				for (uint d = 1; d < pDeg; d++) {
-					sum += h[d] * p.coefficients()[d];
+					h *= x;
+					UnivariatePolynomial<Coeff> reduction(variable);
+					bool res = carl::try_divide(q * coeffAtQDeg(h), lcoeffQ, reduction);
+					assert(res);
+					h -= reduction; // H_d
+					sum += h * p.coefficients()[d];
 				}
-				UnivariatePolynomial<Coeff> normalizedSum(p.mainVar());
+				UnivariatePolynomial<Coeff> normalizedSum(variable);
 				bool res = carl::try_divide(sum, p.lcoeff(), normalizedSum);
-				assert(res || is_constant(sum));
+				assert(res);
 
-				UnivariatePolynomial<Coeff> t(variable, {0, h.back()});
-				UnivariatePolynomial<Coeff> reducedNewB = ((t + normalizedSum) * lcoeffQ - carl::to_univariate_polynomial(t.coefficients()[qDeg], variable));
-				carl::try_divide(reducedNewB, p.lcoeff(), reducedNewB);
+				UnivariatePolynomial<Coeff> t = h * x;
+				UnivariatePolynomial<Coeff> reducedNewB(variable);
+				res = carl::try_divide((t + normalizedSum) * lcoeffQ - q * coeffAtQDeg(t), subresLcoeff, reducedNewB);
+				assert(res);
 				if (delta % 2 == 0) {
 					q = -reducedNewB;
 				} else {
-- 
2.43.0


From 285069504f52572e6e118294598c1af68225212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:00 +0000
Subject: [PATCH 028/141] fix: constant factor of square-free factorizations

---
 .../core/polynomialfunctions/Factorization_univariate.h   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index eefad95..367ea44 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -77,6 +77,14 @@ CLANG_WARNING_RESET
 			}
 			result.emplace(i, w);
 			CARL_LOG_TRACE("carl.core.upoly", "UnivSSF: add the factor (" << w << ")^" << i);
+			// The factors are determined up to constants only, the square-free one carries the remaining constant.
+			Coeff constant = p.lcoeff();
+			for (const auto& factor: result) {
+				constant = constant / carl::pow(factor.second.lcoeff(), factor.first);
+			}
+			if (!carl::isOne(constant)) {
+				result.begin()->second *= constant;
+			}
 		}
 	}
 	return result;
-- 
2.43.0


From a6cc01bc362fdff8ac4af6b428a57494e6158840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:48 +0000
Subject: [PATCH 029/141] fix: substitution of terms by zero terms

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 26be063..42cc68f 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -215,7 +215,10 @@ MultivariatePolynomial<C,O,P> substitute(const MultivariatePolynomial<C,O,P>& p,
 	auto& tam = MultivariatePolynomial<C,O,P>::mTermAdditionManager;
 	auto id = tam.getId(p.nrTerms());
 	for (const auto& term: p) {
-		tam.template addTerm<false>(id, substitute(term, substitutions));
+		Term<C> resultTerm = substitute(term, substitutions);
+		if (!carl::isZero(resultTerm)) {
+			tam.template addTerm<false>(id, resultTerm);
+		}
 	}
 	tam.readTerms(id, result.getTerms());
 	result.reset_ordered();
-- 
2.43.0


From 1ce99c9ce498a2007f961163533b2913f9564408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:48 +0000
Subject: [PATCH 030/141] fix: substitution of the main variable considers its
 exponents

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 42cc68f..afeb805 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -379,10 +379,7 @@ UnivariatePolynomial<Coeff> substitute(const UnivariatePolynomial<Coeff>& p, Var
 		return p;
 	} else {
 		if (var == p.mainVar()) {
-			UnivariatePolynomial<Coeff> res(p.mainVar());
-			for (const auto& c: p.coefficients()) {
-				res += substitute(c, var, value);
-			}
+			UnivariatePolynomial<Coeff> res(p.mainVar(), carl::evaluate(p, value));
 			CARL_LOG_TRACE("carl.core.uvpolynomial", p << " [ " << var << " -> " << value << " ] = " << res);
 			return res;
 		} else {
-- 
2.43.0


From b09990b737b9cb38c01b6e4423d622d63f71c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:01 +0000
Subject: [PATCH 031/141] fix: minimal degree in the information about a single
 variable

---
 src/carl/core/VariableInformation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/VariableInformation.h b/src/carl/core/VariableInformation.h
index 74fb553..a95fb79 100644
--- a/src/carl/core/VariableInformation.h
+++ b/src/carl/core/VariableInformation.h
@@ -69,6 +69,8 @@ public:
          */
 	bool raiseMaxDegree(std::size_t degree) {
 		if (mMaxDegree < degree) {
+			// This is the first occurence.
+			if (mMaxDegree == 0) mMinDegree = degree;
 			mMaxDegree = degree;
 			return true;
 		}
-- 
2.43.0


From e11d89eb6773c0bc4f41aaaf4bc6f03bad764124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:01 +0000
Subject: [PATCH 032/141] fix: Horner scheme dereferenced an unset iterator
 when no variable improves the intervals

---
 src/carl/core/MultivariateHorner.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariateHorner.tpp b/src/carl/core/MultivariateHorner.tpp
index ec283f9..f947ce2 100644
--- a/src/carl/core/MultivariateHorner.tpp
+++ b/src/carl/core/MultivariateHorner.tpp
@@ -107,8 +107,8 @@ namespace carl
 	int s = strategy::selectionType;
 
 		carl::carlVariables::iterator variableIt;
-		carl::carlVariables::iterator selectedVariable;
 		auto allVariablesinPolynome = carl::variables(inPut);
+		carl::carlVariables::iterator selectedVariable = allVariablesinPolynome.begin();
 
 		Interval<double> currentInterval(0);
 		CoeffType delta = constant_zero<CoeffType>::get();
-- 
2.43.0


From 7bf9d91b731209706f4a9dbaaf1981228300bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 033/141] fix: std::less on monomials is irreflexive for the
 empty monomial

---
 src/carl/core/Monomial.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index a37e48a..fc7da4b 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -692,8 +692,7 @@ namespace std
 	template<>
 	struct less<carl::Monomial::Arg> {
 		bool operator()(const carl::Monomial::Arg& lhs, const carl::Monomial::Arg& rhs) const {
-			if (lhs && rhs) return lhs < rhs;
-			return !lhs;
+			return lhs < rhs;
 		}
 	};
 	
-- 
2.43.0


From 9eb8c85d5341b11e9a14d4f59500a39b473b2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 034/141] fix: comparing a monomial with a variable uses the
 same order as comparing monomials

---
 src/carl/core/Monomial.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index fc7da4b..2d567de 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -404,9 +404,10 @@ namespace carl
 		static CompareResult compareLexical(const Monomial::Arg& lhs, Variable rhs)
 		{
 			if(!lhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
+			if(lhs->mExponents.front().second > 1) return CompareResult::LESS;
+			if(lhs->mExponents.size() > 1) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 
@@ -428,9 +429,8 @@ namespace carl
 		{
 			if(!lhs) return CompareResult::LESS;
 			if(lhs->mTotalDegree > 1) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 		
-- 
2.43.0


From 0a45475dfd2835920882a4ee24956cf84a4a8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 035/141] fix: comparing the zero polynomial with a term

---
 src/carl/core/MultivariatePolynomial_operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index d4e1365..5100033 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -39,7 +39,7 @@ inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Multivari
 }
 template<typename C, typename O, typename P>
 inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
-	if (isZero(lhs) && isZero(rhs)) return true;
+	if (isZero(lhs)) return isZero(rhs);
 	if (lhs.nrTerms() > 1) return false;
 	return lhs.lterm() == rhs;
 }
-- 
2.43.0


From 9dfb3466f769dce7fa756b4002724e7dd0bf5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 036/141] fix: order the zero polynomial among the constants
 like the number zero

---
 src/carl/core/MultivariatePolynomial_operators.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index 5100033..5e9e929 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -173,9 +173,6 @@ inline bool operator!=(const MultivariatePolynomial<C,O,P>& lhs, const Univariat
  */
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const MultivariatePolynomial<C,O,P>& rhs) {
-	if (isZero(lhs) && isZero(rhs)) return false;
-	if (isZero(lhs)) return true;
-	if (isZero(rhs)) return false;
 	if (lhs.totalDegree() != rhs.totalDegree()) return lhs.totalDegree() < rhs.totalDegree();
 	if (lhs.totalDegree() == 0) return lhs.constantPart() < rhs.constantPart();
 	if (lhs.lterm() < rhs.lterm()) return true;
@@ -209,7 +206,7 @@ inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, Variable rhs) {
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const C& rhs) {
-	if (isZero(lhs)) return true;
+	if (isZero(lhs)) return carl::constant_zero<C>().get() < rhs;
 	return lhs.lterm() < rhs;
 }
 template<typename C, typename O, typename P>
-- 
2.43.0


From 8103b5990ef4d2f9ef778d302d90879446181f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:43 +0000
Subject: [PATCH 037/141] fix: low degree order of univariate polynomials is
 antisymmetric

---
 src/carl/core/UnivariatePolynomial.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 21345b2..43ca6d9 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -836,7 +836,8 @@ bool UnivariatePolynomial<C>::less(const UnivariatePolynomial<C>& rhs, const Pol
 		}*/
 		case PolynomialComparisonOrder::LowDegree:
 			if (carl::isZero(rhs)) return false;
-			if (carl::isZero(*this) || this->degree() < rhs.degree()) return true;
+			if (carl::isZero(*this)) return true;
+			if (this->degree() != rhs.degree()) return this->degree() < rhs.degree();
 			return *this < rhs;
 		case PolynomialComparisonOrder::Memory:
 			return this < &rhs;
-- 
2.43.0


From dd1109b05f0b5854f8d25e9a4522a9c27681d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:27 +0000
Subject: [PATCH 038/141] fix: convert the zero univariate polynomial to a
 multivariate one

---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index d461118..0487195 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -153,7 +153,7 @@ MultivariatePolynomial<Coeff,Ordering,Policies>::MultivariatePolynomial(const Un
 	mOrdered(true)
 {
 	exponent exp = 0;
-	mTerms.reserve(p.degree());
+	mTerms.reserve(p.coefficients().size());
 	for (const auto& c: p.coefficients()) {
 		if (!carl::isZero(c)) {
 			if (exp == 0) mTerms.emplace_back(c);
-- 
2.43.0


From a1c884bd1062e69bcb19d366ed1c813215b5cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 039/141] fix: intervals constructed with equal strict bounds
 are empty

---
 src/carl/interval/Interval.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 885befb..f6c04e3 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -240,7 +240,7 @@ namespace carl
                     mLowerBoundType = BoundType::STRICT;
                     mUpperBoundType = BoundType::STRICT;
                 }
-                if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
+                else if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
                 {
                     mContent = BoostInterval(carl::constant_zero<Number>().get());
                     mLowerBoundType = BoundType::INFTY;
@@ -635,7 +635,7 @@ namespace carl
             {
                 mContent = BoostInterval(Num(dLeft));
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
+            else if ((lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT)) || lower > upper)
             {
                 mLowerBoundType = BoundType::STRICT;
                 mUpperBoundType = BoundType::STRICT;
@@ -705,7 +705,7 @@ namespace carl
             {
                 mContent = BoostInterval(left);
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
+            else if ((lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT)) || lower > upper)
             {
                 mLowerBoundType = BoundType::STRICT;
                 mUpperBoundType = BoundType::STRICT;
@@ -774,7 +774,7 @@ namespace carl
             {
                 mContent = BoostInterval(left);
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
+            else if ((lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT)) || lower > upper)
             {
                 mLowerBoundType = BoundType::STRICT;
                 mUpperBoundType = BoundType::STRICT;
-- 
2.43.0


From 22b5496dba7591aaa887f99ca07c513205737bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 040/141] fix: adding an interval to the empty interval gives
 the empty interval

---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 38cf2be..d7e7799 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -378,7 +378,7 @@ Interval<Number> Interval<Number>::add(const Interval<Number>& rhs) const
 {
     assert(this->isConsistent());
     assert(rhs.isConsistent());
-	if (rhs.isEmpty()) return emptyInterval();
+	if (isEmpty() || rhs.isEmpty()) return emptyInterval();
     return Interval<Number>( mContent + rhs.content(),
                           getStrictestBoundType( mLowerBoundType, rhs.lowerBoundType() ),
                           getStrictestBoundType( mUpperBoundType, rhs.upperBoundType() ) );
-- 
2.43.0


From 6e16e563a3fdbc5abcde09500321d2c7be1cadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 041/141] fix: convex hull of intervals keeps the bound type of
 the outer bound

---
 src/carl/interval/Interval.tpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index d7e7799..f3fb084 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -361,12 +361,10 @@ Interval<Number> Interval<Number>::convexHull(const Interval<Number>& interval)
 	if(interval.isEmpty())
 		return *this;
 
-	BoundType newLowerBound = getStrictestBoundType(this->lowerBoundType(), interval.lowerBoundType());
-	BoundType newUpperBound = getStrictestBoundType(this->upperBoundType(), interval.upperBoundType());
-	Number newLower = interval.lower() < this->lower() ? interval.lower() : this->lower();
-	Number newUpper = interval.upper() > this->upper() ? interval.upper() : this->upper();
-
-    return Interval(newLower, newLowerBound, newUpper, newUpperBound);
+	return Interval(
+		interval.lowerBound() < this->lowerBound() ? interval.lowerBound() : this->lowerBound(),
+		this->upperBound() < interval.upperBound() ? interval.upperBound() : this->upperBound()
+	);
 }
 
 /*******************************************************************************
-- 
2.43.0


From 2d1dc40378e1d2c3c308af1ec34c097c6dfea2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 042/141] fix: scaling an interval by zero or in place by a
 negative number

---
 src/carl/interval/operators.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index 19b6065..d5abe8d 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -395,7 +395,9 @@ inline Interval<Number> operator*(const Interval<Number>& lhs, const Interval<Nu
  */
 template<typename Number>
 inline Interval<Number> operator*(const Interval<Number>& lhs, const Number& rhs) {
-	if (rhs >= 0) {
+	if (carl::isZero(rhs)) {
+		return lhs.isEmpty() ? lhs : Interval<Number>::zeroInterval();
+	} else if (rhs >= 0) {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.lowerBoundType(), lhs.upperBoundType());
 	} else {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.upperBoundType(), lhs.lowerBoundType());
@@ -433,8 +435,7 @@ inline Interval<Number>& operator*=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator*=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() *= rhs;
-	return lhs;
+	return lhs = lhs * rhs;
 }
 
 /**
-- 
2.43.0


From 227423414b11ab745e6f89c41d32a2ddff3f6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 043/141] fix: shifting an interval in place keeps the empty
 interval canonical

---
 src/carl/interval/operators.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index d5abe8d..62a72b4 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -305,8 +305,7 @@ inline Interval<Number>& operator+=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator+=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() += rhs;
-	return lhs;
+	return lhs = lhs + rhs;
 }
 
 /**
@@ -372,8 +371,7 @@ inline Interval<Number>& operator-=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator-=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() -= rhs;
-	return lhs;
+	return lhs = lhs - rhs;
 }
 
 /**
-- 
2.43.0


From 8bf08b3c3f94f682cf7e60404793efcb6f0e45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 044/141] fix: bound types of interval products with several
 extremal corners or bound zero

---
 src/carl/interval/Interval.tpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index f3fb084..1dcf816 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -437,6 +437,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         lowerA = lowerB;
                         lowerBoundType = getStrictestBoundType(xut, ylt);
                     }
+                    else if( lowerA == lowerB )
+                    {
+                        lowerBoundType = getWeakestBoundType(getStrictestBoundType(xlt, yut), getStrictestBoundType(xut, ylt));
+                    }
                     else
                     {
                         lowerBoundType = getStrictestBoundType(xlt, yut);
@@ -448,6 +452,10 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                         upperA = upperB;
                         upperBoundType = getStrictestBoundType(xut, yut);
                     }
+                    else if( upperA == upperB )
+                    {
+                        upperBoundType = getWeakestBoundType(getStrictestBoundType(xlt, ylt), getStrictestBoundType(xut, yut));
+                    }
                     else
                     {
                         upperBoundType = getStrictestBoundType(xlt, ylt);
@@ -571,8 +579,7 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
     {
         if( zeroBoundInvolved == 2 )
             zeroBoundInvolved = (this->contains( carl::constant_zero<Number>().get() ) || rhs.contains( carl::constant_zero<Number>().get() )) ? 1 : 0;
-        if( zeroBoundInvolved == 1 )
-            lowerBoundType = BoundType::WEAK;
+        lowerBoundType = zeroBoundInvolved == 1 ? BoundType::WEAK : BoundType::STRICT;
     }
     if( (xlt == BoundType::INFTY && (yu < carl::constant_zero<Number>().get() || (yl < carl::constant_zero<Number>().get() || ylt == BoundType::INFTY)))
        || (xut == BoundType::INFTY && (yl > carl::constant_zero<Number>().get() || (yu > carl::constant_zero<Number>().get() || yut == BoundType::INFTY)))
@@ -585,8 +592,7 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
     {
         if( zeroBoundInvolved == 2 )
             zeroBoundInvolved = (this->contains( carl::constant_zero<Number>().get() ) || rhs.contains( carl::constant_zero<Number>().get() )) ? 1 : 0;
-        if( zeroBoundInvolved == 1 )
-            upperBoundType = BoundType::WEAK;
+        upperBoundType = zeroBoundInvolved == 1 ? BoundType::WEAK : BoundType::STRICT;
     }
     return Interval<Number>(std::move(resultInterval), lowerBoundType, upperBoundType );
 }
-- 
2.43.0


From 2a038802a32eb71d8a7d98b75c68b39fefce8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 045/141] fix: absolute value of intervals around zero

---
 src/carl/interval/Interval.tpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 1dcf816..bbfedd9 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -727,11 +727,14 @@ void Interval<Number>::inverse_assign()
         {
             if(this->contains(carl::constant_zero<Number>().get()))
             {
-                Number max = mContent.upper() > mContent.lower() ? mContent.upper() : mContent.lower();
-                BoundType bt = mContent.upper() > mContent.lower() ? mUpperBoundType : mLowerBoundType;
+                Number max = -mContent.lower() > mContent.upper() ? Number(-mContent.lower()) : mContent.upper();
+                BoundType bt = mUpperBoundType;
+                if (mLowerBoundType == BoundType::INFTY || -mContent.lower() > mContent.upper()) bt = mLowerBoundType;
+                else if (-mContent.lower() == mContent.upper()) bt = getWeakestBoundType(mLowerBoundType, mUpperBoundType);
+                if (mUpperBoundType == BoundType::INFTY) bt = BoundType::INFTY;
                 return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max, bt );
             }
-            else if( mContent.upper() < carl::constant_zero<Number>().get()) // interval is fully negative
+            else if( this->isNegative() ) // interval is fully negative
             {
                 return Interval<Number>(-mContent.upper(), mUpperBoundType, -mContent.lower(), mLowerBoundType);
             }
-- 
2.43.0


From eddeec3636b7ba6fb262445d7ab58ec6a07abdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 046/141] fix: interval powers with exponent zero or symmetric
 bounds

---
 src/carl/interval/power.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 81124d9..ef4df23 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -10,7 +10,9 @@ namespace carl {
 template<typename Number, typename Integer>
 Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 	assert(i.isConsistent());
-	if (exp % 2 == 0) {
+	if (exp == 0) {
+		return i.isEmpty() ? i : Interval<Number>(carl::constant_one<Number>().get());
+	} else if (exp % 2 == 0) {
 		if (i.isInfinite()) {
 			return Interval<Number>(carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY);
 		} else if (i.lowerBoundType() == BoundType::INFTY) {
@@ -30,6 +32,8 @@ Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 			BoundType lType = i.lowerBoundType();
 			if (carl::abs(i.lower()) > carl::abs(i.upper())) {
 				std::swap(lType, rType);
+			} else if (carl::abs(i.lower()) == carl::abs(i.upper())) {
+				rType = getWeakestBoundType(lType, rType);
 			}
 			if (i.contains(carl::constant_zero<Number>().get())) {
 				return Interval<Number>(boost::numeric::pow(i.rContent(), int(exp)), BoundType::WEAK, rType);
-- 
2.43.0


From e0718b50f3ee5679017b7d960e060579b128e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 047/141] fix: floor and ceil of intervals with strict bounds

---
 src/carl/interval/Interval.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index f6c04e3..8f05cd0 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -1541,7 +1541,11 @@ bool isOne(const Interval<Number>& i) {
     template<typename Number>
     inline Interval<Number> floor(const Interval<Number>& _in)
     {
-        return Interval<Number>(floor(_in.lower()), _in.lowerBoundType(), floor(_in.upper()), _in.upperBoundType());
+        if (_in.isEmpty()) return _in;
+        return Interval<Number>(
+            floor(_in.lower()), getWeakestBoundType(_in.lowerBoundType(), BoundType::WEAK),
+            _in.upperBoundType() == BoundType::STRICT ? Number(ceil(_in.upper()) - carl::constant_one<Number>().get()) : Number(floor(_in.upper())), getWeakestBoundType(_in.upperBoundType(), BoundType::WEAK)
+        );
     }
 
     /**
@@ -1553,7 +1557,11 @@ bool isOne(const Interval<Number>& i) {
     template<typename Number>
     inline Interval<Number> ceil(const Interval<Number>& _in)
     {
-        return Interval<Number>(ceil(_in.lower()), _in.lowerBoundType(), ceil(_in.upper()), _in.upperBoundType());
+        if (_in.isEmpty()) return _in;
+        return Interval<Number>(
+            _in.lowerBoundType() == BoundType::STRICT ? Number(floor(_in.lower()) + carl::constant_one<Number>().get()) : Number(ceil(_in.lower())), getWeakestBoundType(_in.lowerBoundType(), BoundType::WEAK),
+            ceil(_in.upper()), getWeakestBoundType(_in.upperBoundType(), BoundType::WEAK)
+        );
     }
 
 }
-- 
2.43.0


From 2bb0f52b44f853bba40c274731cbf00fd5f1047b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:07 +0000
Subject: [PATCH 048/141] fix: bloating and shrinking half-bounded intervals

---
 src/carl/interval/Interval.tpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index bbfedd9..a59227a 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -241,18 +241,8 @@ template<typename Number>
     template<typename Number>
     void Interval<Number>::bloat_by(const Number& width)
     {
-	if(!isInfinite()){
-	    BoundType lowerTmp = mLowerBoundType;
-	    BoundType upperTmp = mUpperBoundType;
-	    this->set(boost::numeric::widen(mContent, width));
-	    mLowerBoundType = lowerTmp;
-	    mUpperBoundType = upperTmp;
-	} else if (mLowerBoundType != BoundType::INFTY) {
-	    this->set(boost::numeric::widen(mContent, width));
-	    mUpperBoundType = BoundType::INFTY;
-	} else if (mUpperBoundType != BoundType::INFTY) {
-	    this->set(boost::numeric::widen(mContent, width));
-	    mLowerBoundType = BoundType::INFTY;
+	if(!isInfinite() && !isEmpty()){
+	    *this = Interval<Number>(boost::numeric::widen(mContent, width), mLowerBoundType, mUpperBoundType);
 	}
     }
 
-- 
2.43.0


From 6efc4bc15da9688fc378026db58f9905277cea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:24 +0000
Subject: [PATCH 049/141] fix: signed overflow when comparing floats of
 opposite sign

---
 src/carl/numbers/adaption_float/FLOAT_T.h | 3352 ++++++++++-----------
 1 file changed, 1676 insertions(+), 1676 deletions(-)

diff --git a/src/carl/numbers/adaption_float/FLOAT_T.h b/src/carl/numbers/adaption_float/FLOAT_T.h
index e3fa2d7..74ad2c8 100644
--- a/src/carl/numbers/adaption_float/FLOAT_T.h
+++ b/src/carl/numbers/adaption_float/FLOAT_T.h
@@ -1,1676 +1,1676 @@
-/**
- * General class for floating point numbers with different formats. Extend to
- * other types if necessary.
- *
- * @file FLOAT_T.h
- * @author  Stefan Schupp <stefan.schupp@cs.rwth-aachen.de>
- * @since   2013-10-14
- * @version 2014-08-28
- */
-
-#pragma once
-
-#ifndef INCLUDED_FROM_NUMBERS_H
-static_assert(false, "This file may only be included indirectly by numbers.h");
-#endif
-
-
-//#include "../../core/logging.h"
-#include "../../util/hash.h"
-#include "../../util/SFINAE.h"
-#include "roundingConversion.h"
-
-#include <cfloat>
-#include <cmath>
-#include <cstddef>
-#include <iostream>
-#include <string>
-
-namespace carl
-{
-	using precision_t = std::size_t;
-
-	template<typename Number>
-    class Interval;
-
-	template<typename FloatType>
-	class FLOAT_T;
-
-	/**
-	 * Struct which holds the conversion operator for any two instanciations of
-	 * FLOAT_T with different underlying floating point implementations. Note
-	 * that this conversion introduces loss of precision, as it uses the toDouble()
-	 * method and the corresponding double constructor from the target type.
-	 */
-	template<typename T1, typename T2>
-	struct FloatConv
-	{
-		/**
-		 * Conversion operator for conversion of two instanciations of FLOAT_T
-		 * with different underlying floating point implementations.
-		 * @param _op2 The source instanciation (T2)
-		 * @return returns an instanciation with different floating point implementation (T1)
-		 */
-		FLOAT_T<T1> operator() (const FLOAT_T<T2>& _op2) const
-		{
-			return FLOAT_T<T1>(_op2.toDouble());
-		}
-	};
-
-
-	enum Str2Double_Error { FLOAT_SUCCESS, FLOAT_OVERFLOW, FLOAT_UNDERFLOW, FLOAT_INCONVERTIBLE };
-
-	inline Str2Double_Error str2double (double &d, char const *s)
-	{
-		char *end;
-		long double  l;
-		errno = 0;
-		l = strtod(s, &end);
-		if ((errno == ERANGE && l == LDBL_MAX) || l > DBL_MAX) {
-			return FLOAT_OVERFLOW;
-		}
-		if ((errno == ERANGE && l == LDBL_MIN) || l < DBL_MIN) {
-			return FLOAT_UNDERFLOW;
-		}
-		if (*s == '\0' || *end != '\0') {
-			return FLOAT_INCONVERTIBLE;
-		}
-		d = double(l);
-		return FLOAT_SUCCESS;
-	}
-
-	// Usable AlmostEqual function taken from http://www.cygnus-software.com/papers/comparingfloats/comparingfloats.htm
-	template<typename Number>
-	inline bool AlmostEqual2sComplement(const Number& A, const Number& B, unsigned /*unused*/ = 128)
-	{
-		return A == B;
-	}
-
-	template<>
-	inline bool AlmostEqual2sComplement<double>(const double& A, const double& B, unsigned maxUlps)
-	{
-		// Make sure maxUlps is non-negative and small enough that the
-		// default NAN won't compare as equal to anything.
-		assert(maxUlps > 0 && maxUlps < 4 * 1024 * 1024);
-		sint aInt = *reinterpret_cast<const sint*>(&A);
-		// Make aInt lexicographically ordered as a twos-complement int
-		if (aInt < 0)
-			aInt = static_cast<sint>(0x8000000000000000) - aInt;
-		// Make bInt lexicographically ordered as a twos-complement int
-		sint bInt = *reinterpret_cast<const sint*>(&B);
-		if (bInt < 0)
-			bInt = static_cast<sint>(0x8000000000000000) - bInt;
-		auto intDiff = static_cast<uint>(std::abs(aInt - bInt));
-		return intDiff <= maxUlps;
-	}
-
-	/**
-	 * Templated wrapper class which allows universal usage of different
-	 * IEEE 754 implementations.
-	 * For each implementation intended to use it is necessary to implement the
-	 * according specialization of this class.
-	 */
-	template<typename FloatType>
-	class FLOAT_T
-	{
-		static_assert(carl::is_subset_of_integers<FloatType>::value == false, "FLOAT_T may not be used with integers.");
-	private:
-		FloatType mValue;
-
-	public:
-
-		/**
-		 * Default empty constructor, which initializes to zero.
-		 */
-		FLOAT_T<FloatType>() :
-			mValue()
-		{}
-
-		/**
-		 * Constructor, which takes a double as input and optional rounding, which
-		 * can be used, if the underlying fp implementation allows this.
-		 * @param _double Value to be initialized.
-		 * @param N Possible rounding direction.
-		 */
-		explicit FLOAT_T<FloatType>(double _double, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(carl::convert<double, FloatType>(_double))
-		{
-		}
-
-		/**
-		 * Constructor, which takes an integer as input and optional rounding, which
-		 * can be used, if the underlying fp implementation allows this.
-		 * @param _int Value to be initialized.
-		 * @param N Possible rounding direction.
-		 */
-		explicit FLOAT_T<FloatType>(sint _int, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(FloatType(_int))
-		{
-		}
-
-		explicit FLOAT_T<FloatType>(int _int, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(FloatType(_int))
-		{
-		}
-
-		/**
-		 * Constructor, which takes an unsigned integer as input and optional rounding, which
-		 * can be used, if the underlying fp implementation allows this.
-		 * @param _int Value to be initialized.
-		 * @param N Possible rounding direction.
-		 */
-		explicit FLOAT_T<FloatType>(unsigned _int, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(FloatType(_int))
-		{
-		}
-
-		/**
-		 * Copyconstructor which takes a FLOAT_T<FloatType>  and optional rounding
-		 * as input, which can be used, if the underlying fp implementation
-		 * allows this.
-		 * @param _float Value to be initialized.
-		 * @param N Possible rounding direction.
-		 */
-		FLOAT_T<FloatType>(const FLOAT_T<FloatType>& _float, CARL_RND /*unused*/ = CARL_RND::N) : mValue(_float.mValue)
-		{}
-
-		FLOAT_T<FloatType>(FLOAT_T<FloatType>&& _float, CARL_RND /*unused*/ = CARL_RND::N) noexcept : mValue(std::move(_float.value())) // NOLINT
-		{}
-
-		/**
-		 * Constructor, which takes an arbitrary fp type as input and optional rounding, which
-		 * can be used, if the underlying fp implementation allows this.
-		 * @param val Value to be initialized.
-		 * @param N Possible rounding direction.
-		 */
-		template<typename F = FloatType, DisableIf< std::is_same<F, double> > = dummy>
-		explicit FLOAT_T<FloatType>(FloatType val, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(std::move(val))
-		{
-		}
-
-		template<typename F = FloatType, EnableIf< carl::is_rational<F> > = dummy>
-		explicit FLOAT_T<FloatType>(const std::string& _string, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(carl::rationalize<FloatType>(_string))
-		{
-		}
-
-		template<typename F = FloatType, EnableIf< std::is_same<F, double> > = dummy>
-		explicit FLOAT_T<FloatType>(const std::string& _string, CARL_RND /*unused*/ = CARL_RND::N):
-			mValue(std::stod(_string))
-		{
-		}
-
-		/**
-		 * Destructor. Note that for some specializations memory management has to
-		 * be included here.
-		 */
-		~FLOAT_T() = default;
-
-		/**
-		 * Getter for the raw value contained.
-		 * @return Raw value.
-		 */
-		const FloatType& value() const {
-			return mValue;
-		}
-
-		/**
-		 * If precision is used, this getter returns the acutal precision (default:
-		 * 53 bit).
-		 * @return Precision.
-		 */
-		precision_t precision() const
-		{
-			return 0;
-		}
-
-		/**
-		 * Allows to set the desired precision. Note: If the value is already
-		 * initialized this can change the internal value.
-		 * @param Precision in bits.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& setPrecision(const precision_t& /*unused*/)
-		{
-			return *this;
-		}
-
-		/**
-		 * Assignment operator.
-		 * @param _rhs Righthand side of the assignment.
-		 * @return Reference to this.
-		 */
-		FLOAT_T& operator =(const FLOAT_T& _rhs) = default;
-
-		FLOAT_T& operator =(const FloatType& _rhs)
-		{
-			mValue = _rhs;
-			return *this;
-		}
-
-		/**
-		 * Comparison operator for equality.
-		 * @param _rhs Righthand side of the comparison.
-		 * @return True if _rhs equals this.
-		 */
-		bool operator ==(const FLOAT_T<FloatType>& _rhs) const
-		{
-			//std::cout << "COMPARISON: " << *this << " == " << _rhs << " : " << (mValue == _rhs.mValue) << std::endl;
-			return mValue == _rhs.mValue;
-			// return AlmostEqual2sComplement(double(mValue), double(_rhs.mValue), 4);
-		}
-
-		/**
-		 * Comparison operator for inequality.
-		 * @param _rhs Righthand side of the comparison.
-		 * @return True if _rhs is unequal to this.
-		 */
-		bool operator !=(const FLOAT_T<FloatType> & _rhs) const
-		{
-			return mValue != _rhs.mValue;
-		}
-
-		/**
-		 * Comparison operator for larger than.
-		 * @param _rhs Righthand side of the comparison.
-		 * @return True if _rhs is larger than this.
-		 */
-		bool operator>(const FLOAT_T<FloatType> & _rhs) const
-		{
-			return mValue > _rhs.mValue;
-		}
-
-		bool operator>(int _rhs) const
-		{
-			return mValue > _rhs;
-		}
-
-		bool operator>(unsigned _rhs) const
-		{
-			return mValue > _rhs;
-		}
-
-
-		/**
-		 * Comparison operator for less than.
-		 * @param _rhs Righthand side of the comparison.
-		 * @return  True if _rhs is smaller than this.
-		 */
-		bool operator<(const FLOAT_T<FloatType> & _rhs) const
-		{
-			return mValue < _rhs.mValue;
-		}
-
-		bool operator<(int _rhs) const
-		{
-			return mValue < _rhs;
-		}
-
-		bool operator<(unsigned _rhs) const
-		{
-			return mValue < _rhs;
-		}
-
-		/**
-		 * Comparison operator for less or equal than.
-		 * @param _rhs Righthand side of the comparison.
-		 * @return True if _rhs is larger or equal than this.
-		 */
-		bool operator <=(const FLOAT_T<FloatType> & _rhs) const
-		{
-			return mValue <= _rhs.mValue;
-		}
-
-		/**
-		 * Comparison operator for larger or equal than.
-		 * @param _rhs Righthand side of the comparison.
-		 * @return True if _rhs is smaller or equal than this.
-		 */
-		bool operator >=(const FLOAT_T<FloatType> & _rhs) const
-		{
-			return mValue >= _rhs.mValue;
-		}
-
-		/**
-		 * Function for addition of two numbers, which assigns the result to the
-		 * calling number.
-		 * @param _op2 Righthand side of the operation
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& add_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = mValue + _op2.mValue;
-			return *this;
-		}
-
-		/**
-		 * Function which adds two numbers and puts the result in a third number passed as parameter.
-		 * @param _result Result of the operation.
-		 * @param _op2 Righthand side of the operation.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& add(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = mValue + _op2.mValue;
-			return _result;
-		}
-
-		/**
-		 * Function for subtraction of two numbers, which assigns the result to the
-		 * calling number.
-		 * @param _op2 Righthand side of the operation
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& sub_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = mValue - _op2.mValue;
-			return *this;
-		}
-
-		/**
-		 * Function which subtracts the righthand side from this number and puts
-		 * the result in a third number passed as parameter.
-		 * @param _result Result of the operation.
-		 * @param _op2 Righthand side of the operation.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& sub(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = mValue - _op2.mValue;
-			return _result;
-		}
-
-		/**
-		 * Function for multiplication of two numbers, which assigns the result to the
-		 * calling number.
-		 * @param _op2 Righthand side of the operation
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& mul_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = mValue * _op2.mValue;
-			return *this;
-		}
-
-		/**
-		 * Function which multiplicates two numbers and puts the result in a
-		 * third number passed as parameter.
-		 * @param _result Result of the operation.
-		 * @param _op2 Righthand side of the operation.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& mul(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = mValue * _op2.mValue;
-			return _result;
-		}
-
-		/**
-		 * Function for division of two numbers, which assigns the result to the
-		 * calling number.
-		 * @param _op2 Righthand side of the operation
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& div_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			assert(!isZero(_op2));
-			mValue = mValue / _op2.mValue;
-			return *this;
-		}
-
-		/**
-		 * Function which divides this number by the righthand side and puts the
-		 * result in a third number passed as parameter.
-		 * @param _result Result of the operation.
-		 * @param _op2 Righthand side of the operation.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& div(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			assert(_op2 != 0);
-			_result.mValue = mValue / _op2.mValue;
-			return _result;
-		}
-
-		/**
-		 * Function for the square root of the number, which assigns the result to the
-		 * calling number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& sqrt_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			assert(mValue >= 0);
-			mValue = std::sqrt(mValue);
-			return *this;
-		}
-
-		/**
-		 * Returns the square root of this number and puts it into a passed result
-		 * parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& sqrt(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			assert(mValue >= 0);
-			_result.mValue = carl::sqrt(mValue);
-			return _result;
-		}
-
-		/**
-		 * Function for the cubic root of the number, which assigns the result to the
-		 * calling number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& cbrt_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			assert(*this >= 0);
-			mValue = std::cbrt(mValue);
-			return *this;
-		}
-
-		/**
-		 * Returns the cubic root of this number and puts it into a passed result
-		 * parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& cbrt(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			assert(*this >= 0);
-			_result.mValue = std::cbrt(mValue);
-			return _result;
-		}
-
-		/**
-		 * Function for the nth root of the number, which assigns the result to the
-		 * calling number.
-		 * @param Degree of the root.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& root_assign(std::size_t /*unused*/, CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			assert(*this >= 0);
-			/// @todo implement root_assign for FLOAT_T
-			assert(false && "not implemented");
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the nth root of this number and puts it into a passed result
-		 * parameter.
-		 * @param Result.
-		 * @param Degree of the root.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& root(FLOAT_T<FloatType>& /*unused*/, std::size_t /*unused*/, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			assert(*this >= 0);
-			/// @todo implement root for FLOAT_T
-			assert(false && "not implemented");
-		}
-
-		/**
-		 * Function for the nth power of the number, which assigns the result to the
-		 * calling number.
-		 * @param _exp Exponent.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& pow_assign(std::size_t _exp, CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::pow(mValue, _exp);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the power of this number and puts it into a passed result
-		 * parameter.
-		 * @param _result Result.
-		 * @param _exp Exponent.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& pow(FLOAT_T<FloatType>& _result, std::size_t _exp, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::pow(mValue, _exp);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the absolute value of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& abs_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = carl::abs(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the absolute value of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& abs(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::abs(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the exponential of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& exp_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::exp(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the exponential of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& exp(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::exp(this->mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the sine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& sin_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = carl::sin(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the sine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& sin(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::sin(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the cosine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& cos_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = carl::cos(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the cosine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& cos(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::cos(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the logarithm of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& log_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::log(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the logarithm of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& log(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::log(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the tangent of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& tan_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::tan(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the tangent of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& tan(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::tan(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the arcus sine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& asin_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::asin(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the arcus sine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& asin(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::asin(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the arcus cosine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& acos_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::acos(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the arcus cosine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& acos(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::acos(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the arcus tangent of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& atan_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::atan(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the arcus tangent of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& atan(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::atan(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the hyperbolic sine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& sinh_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::sinh(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the hyperbolic sine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& sinh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::sinh(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the hyperbolic cosine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& cosh_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::cosh(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the hyperbolic cosine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& cosh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::cosh(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the hyperbolic tangent of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& tanh_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::tanh(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the hyperbolic tangent of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& tanh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::tanh(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the hyperbolic arcus sine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& asinh_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::asinh(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the hyperbolic arcus sine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& asinh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::asinh(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the hyperbolic arcus cosine of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& acosh_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::acosh(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the hyperbolic arcus cosine of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& acosh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::acosh(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the hyperbolic arcus tangent of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& atanh_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::atanh(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the hyperbolic arcus tangent of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& atanh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = std::atanh(mValue);
-			return _result;
-		}
-
-		/**
-		 * Function which calculates the floor of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& floor(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::floor(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the floor of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& floor_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = carl::floor(mValue);
-			return *this;
-		}
-
-		/**
-		 * Function which calculates the ceiling of this number and puts
-		 * it into a passed result parameter.
-		 * @param _result Result.
-		 * @param N Possible rounding direction.
-		 * @return Reference to the result.
-		 */
-		FLOAT_T<FloatType>& ceil(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			_result.mValue = carl::ceil(mValue);
-			return _result;
-		}
-
-		/**
-		 * Assigns the number the ceiling of this number.
-		 * @param N Possible rounding direction.
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& ceil_assign(CARL_RND /*unused*/ = CARL_RND::N)
-		{
-			mValue = std::ceil(mValue);
-			return *this;
-		}
-
-
-		/**
-		 * Function which converts the number to a double value.
-		 * @param N Possible rounding direction.
-		 * @return Double representation of this
-		 */
-		double toDouble(CARL_RND /*unused*/ = CARL_RND::N) const
-		{
-			return carl::toDouble(mValue);
-		}
-
-
-		/**
-		 * Explicit typecast operator to integer.
-		 * @return Integer representation of this.
-		 */
-		explicit operator int() const
-		{
-			if(*this >= 0)
-				return carl::toInt<int>(carl::floor(mValue));
-			else
-				return carl::toInt<int>(carl::ceil(mValue));
-		}
-
-		/**
-		 * Explicit typecast operator to long.
-		 * @return Long representation of this.
-		 */
-		explicit operator long() const
-		{
-			return carl::toInt<long>(mValue);
-		}
-
-		/**
-		 * Explicit typecast operator to double.
-		 * @return Double representation of this.
-		 */
-		explicit operator double() const
-		{
-			return carl::toDouble(mValue);
-		}
-
-		explicit operator mpq_class() const {
-			return carl::rationalize<mpq_class>(mValue);
-		}
-
-#ifdef USE_CLN_NUMBERS
-		explicit operator cln::cl_RA() const {
-			return carl::rationalize<cln::cl_RA>(mValue);
-		}
-#endif
-
-		/**
-		 * Output stream operator for numbers of type FLOAT_T.
-		 * @param ostr Output stream.
-		 * @param p Number.
-		 * @return Reference to the ostream.
-		 */
-		friend std::ostream& operator<<(std::ostream& ostr, const FLOAT_T<FloatType>& p)
-		{
-			ostr << p.mValue;
-			return ostr;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the complex conjugate.
-		 * @param x The passed number.
-		 * @return Reference to x.
-		 */
-		inline const FLOAT_T<FloatType>& ei_conj(const FLOAT_T<FloatType>& x)
-		{
-			return x;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the real part.
-		 * @param x The passed number.
-		 * @return Reference to x.
-		 */
-		inline const FLOAT_T<FloatType>& ei_real(const FLOAT_T<FloatType>& x)
-		{
-			return x;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the imaginary part.
-		 * @param x The passed number.
-		 * @return Zero.
-		 */
-		inline FLOAT_T<FloatType> ei_imag(const FLOAT_T<FloatType>& /*unused*/)
-		{
-			return FLOAT_T<FloatType>(0);
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the absolute value.
-		 * @param x The passed number.
-		 * @return Number which holds the absolute value of x.
-		 */
-		inline FLOAT_T<FloatType> ei_abs(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.abs(res);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the absolute value (special Eigen3
-		 * version).
-		 * @param x The passed number.
-		 * @return Number which holds the absolute value of x according to abs2 of Eigen3.
-		 */
-		inline FLOAT_T<FloatType> ei_abs2(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.mul(res, x);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the square root.
-		 * @param x The passed number.
-		 * @return Number which holds the square root of x.
-		 */
-		inline FLOAT_T<FloatType> ei_sqrt(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.sqrt(res);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the exponential.
-		 * @param x The passed number.
-		 * @return Number which holds the exponential of x.
-		 */
-		inline FLOAT_T<FloatType> ei_exp(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.exp(res);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the logarithm.
-		 * @param x The passed number.
-		 * @return Number which holds the logarithm of x.
-		 */
-		inline FLOAT_T<FloatType> ei_log(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.log(res);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the sine.
-		 * @param x The passed number.
-		 * @return Number which holds the sine of x.
-		 */
-		inline FLOAT_T<FloatType> ei_sin(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.sin(res);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the cosine.
-		 * @param x The passed number.
-		 * @return Number which holds the cosine of x.
-		 */
-		inline FLOAT_T<FloatType> ei_cos(const FLOAT_T<FloatType>& x)
-		{
-			FLOAT_T<FloatType> res;
-			x.cos(res);
-			return res;
-		}
-
-		/**
-		 * Function required for extension of Eigen3 with FLOAT_T as
-		 * a custom type which calculates the power.
-		 * @param x The passed number.
-		 * @param y Degree.
-		 * @return Number which holds the power of x of degree y.
-		 */
-		inline FLOAT_T<FloatType> ei_pow(const FLOAT_T<FloatType>& x, FLOAT_T<FloatType> y)
-		{
-			FLOAT_T<FloatType> res;
-			x.pow(res, unsigned(y));
-			return res;
-		}
-
-		/**
-		 * Operator for addition of two numbers
-		 * @param _lhs Lefthand side.
-		 * @param _rhs Righthand side.
-		 * @return Number which holds the result.
-		 */
-		friend FLOAT_T<FloatType> operator +(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
-		{
-			return FLOAT_T<FloatType>(_lhs.mValue + _rhs.mValue);
-		}
-
-		/**
-		 * Operator for subtraction of two numbers
-		 * @param _lhs Lefthand side.
-		 * @param _rhs Righthand side.
-		 * @return Number which holds the result.
-		 */
-		friend FLOAT_T<FloatType> operator -(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
-		{
-			return FLOAT_T<FloatType>(_lhs.mValue - _rhs.mValue);
-		}
-
-		/**
-		 * Operator for unary negation of a number.
-		 * @param _lhs Lefthand side.
-		 * @return Number which holds the result.
-		 */
-		friend FLOAT_T<FloatType> operator -(const FLOAT_T<FloatType>& _lhs)
-		{
-			return FLOAT_T<FloatType>(-1)*_lhs;
-		}
-
-		/**
-		 * Operator for addition of two numbers.
-		 * @param _lhs Lefthand side.
-		 * @param _rhs Righthand side.
-		 * @return Number which holds the result.
-		 */
-		friend FLOAT_T<FloatType> operator *(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
-		{
-			return FLOAT_T<FloatType>(_lhs.mValue * _rhs.mValue);
-		}
-
-		/**
-		 * Operator for addition of two numbers.
-		 * @param _lhs Lefthand side.
-		 * @param _rhs Righthand side.
-		 * @return Number which holds the result.
-		 */
-		friend FLOAT_T<FloatType> operator /(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
-		{
-			assert(_rhs != FLOAT_T<FloatType>(0));
-			return FLOAT_T<FloatType>(_lhs.mValue / _rhs.mValue);
-		}
-
-		/**
-		 * Operator which increments this number by one.
-		 * @param _num
-		 * @return Reference to _num.
-		 */
-		friend FLOAT_T<FloatType>& operator ++(FLOAT_T<FloatType>& _num)
-		{
-			_num.mValue += FLOAT_T<FloatType>(1);
-			return _num;
-		}
-
-		/**
-		 * Operator which decrements this number by one.
-		 * @param _num
-		 * @return Reference to _num.
-		 */
-		friend FLOAT_T<FloatType>& operator --(FLOAT_T<FloatType>& _num)
-		{
-			_num.mValue -= FLOAT_T<FloatType>(1);
-			return _num;
-		}
-
-		/**
-		 * Operator which adds the righthand side to this.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator +=(const FLOAT_T<FloatType>& _rhs)
-		{
-			mValue = mValue + _rhs.mValue;
-			return *this;
-		}
-
-		/**
-		 * Operator which adds the righthand side of the underlying type to this.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator +=(const FloatType& _rhs)
-		{
-			mValue = mValue + _rhs;
-			return *this;
-		}
-
-		/**
-		 * Operator which subtracts the righthand side from this.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator -=(const FLOAT_T<FloatType>& _rhs)
-		{
-			mValue = mValue - _rhs.mValue;
-			return *this;
-		}
-
-		/**
-		 * Operator which subtracts the righthand side of the underlying type from this.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator -=(const FloatType& _rhs)
-		{
-			mValue = mValue - _rhs;
-			return *this;
-		}
-
-		/**
-		 * Operator for unary negation of this number.
-		 * @return Number which holds the negated original number.
-		 */
-		FLOAT_T<FloatType> operator-()
-		{
-			FLOAT_T<FloatType> result = FLOAT_T<FloatType>(*this);
-			result *= FLOAT_T<FloatType>(-1);
-			return result;
-		}
-
-		/**
-		 * Operator which multiplicates this number by the righthand side.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator *=(const FLOAT_T<FloatType>& _rhs)
-		{
-			mValue = mValue * _rhs.mValue;
-			return *this;
-		}
-
-		/**
-		 * Operator which multiplicates this number by the righthand side of the
-		 * underlying type.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator *=(const FloatType& _rhs)
-		{
-			mValue = mValue * _rhs;
-			return *this;
-		}
-
-		/**
-		 * Operator which divides this number by the righthand side.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator /=(const FLOAT_T<FloatType>& _rhs)
-		{
-			mValue = mValue / _rhs.mValue;
-			return *this;
-		}
-
-		/**
-		 * Operator which divides this number by the righthand side of the underlying
-		 * type.
-		 * @param _rhs
-		 * @return Reference to this.
-		 */
-		FLOAT_T<FloatType>& operator /=(const FloatType& _rhs)
-		{
-			mValue = mValue / _rhs;
-			return *this;
-		}
-
-		/**
-		 * Method which converts this number to a string.
-		 * @return String representation of this number.
-		 */
-		std::string toString() const
-		{
-			return carl::toString(mValue);
-		}
-	};
-
-	template<typename FloatType>
-	inline bool isInteger(const FLOAT_T<FloatType>& in) {
-		return carl::isInteger(in.value());
-	}
-
-	/**
-	 * Implements the division which assumes that there is no remainder.
-	 * @param _lhs
-	 * @param _rhs
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> div(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
-	{
-		// TODO
-		FLOAT_T<FloatType> result;
-		result = _lhs / _rhs;
-		return result;
-	}
-
-	/**
-	 * Implements the division with remainder.
-	 * @param _lhs
-	 * @param _rhs
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> quotient(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
-	{
-		// TODO
-		FLOAT_T<FloatType> result;
-		result = _lhs / _rhs;
-		return result;
-	}
-
-	/**
-	 * Casts the FLOAT_T to an arbitrary integer type which has a constructor for
-	 * a native int.
-	 * @param _float
-	 * @return Integer type which holds floor(_float).
-	 */
-	template<typename Integer, typename FloatType>
-	inline Integer toInt(const FLOAT_T<FloatType>& _float)
-	{
-		return carl::toInt<Integer>(_float.value());
-	}
-
-	template<typename FloatType>
-	inline double toDouble(const FLOAT_T<FloatType>& _float)
-	{
-		return double(_float);
-	}
-
-	/**
-	 * Method which returns the absolute value of the passed number.
-	 * @param _in Number.
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> abs(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.abs(result);
-		return result;
-	}
-
-	/**
-	 * Method which returns the logarithm of the passed number.
-	 * @param _in Number.
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> log(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.log(result);
-		return result;
-	}
-
-	/**
-	 * Method which returns the square root of the passed number.
-	 * @param _in Number.
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> sqrt(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.sqrt(result);
-		return result;
-	}
-
-	template<typename FloatType>
-	inline std::pair<FLOAT_T<FloatType>, FLOAT_T<FloatType>> sqrt_safe(const FLOAT_T<FloatType>& _in)
-	{
-		return carl::sqrt_safe(_in.value());
-	}
-
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> pow(const FLOAT_T<FloatType>& _in, size_t _exp)
-	{
-		FLOAT_T<FloatType> result;
-		_in.pow(result, _exp);
-		return result;
-	}
-
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> sin(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.sin(result);
-		return result;
-	}
-
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> cos(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.cos(result);
-		return result;
-	}
-
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> asin(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.asin(result);
-		return result;
-	}
-
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> acos(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.acos(result);
-		return (result);
-	}
-
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> atan(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.atan(result);
-		return result;
-	}
-
-	/**
-	 * Method which returns the next smaller integer of this number or the number
-	 * itself, if it is already an integer.
-	 * @param _in Number.
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> floor(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.floor(result);
-		return result;
-	}
-
-	/**
-	 * Method which returns the next larger integer of the passed number or the
-	 * number itself, if it is already an integer.
-	 * @param _in Number.
-	 * @return Number which holds the result.
-	 */
-	template<typename FloatType>
-	inline FLOAT_T<FloatType> ceil(const FLOAT_T<FloatType>& _in)
-	{
-		FLOAT_T<FloatType> result;
-		_in.ceil(result);
-		return result;
-	}
-
-	template<>
-	inline FLOAT_T<double> rationalize<FLOAT_T<double>>(double n)
-	{
-		return FLOAT_T<double>(n);
-	}
-
-	template<>
-	inline FLOAT_T<float> rationalize<FLOAT_T<float>>(float n)
-	{
-		return FLOAT_T<float>(n);
-	}
-
-	template<>
-	inline FLOAT_T<mpq_class> rationalize<FLOAT_T<mpq_class>>(double n)
-	{
-		return FLOAT_T<mpq_class>(carl::rationalize<mpq_class>(n));
-	}
-
-	#ifdef USE_CLN_NUMBERS
-
-	template<>
-	inline FLOAT_T<cln::cl_RA> rationalize<FLOAT_T<cln::cl_RA>>(double n)
-	{
-		return FLOAT_T<cln::cl_RA>(carl::rationalize<cln::cl_RA>(n));
-	}
-
-	/**
-	 * Implicitly converts the number to a rational and returns the denominator.
-	 * @param _in Number.
-	 * @return Cln interger which holds the result.
-	 */
-	inline cln::cl_I getDenom(const FLOAT_T<cln::cl_RA>& _in)
-	{
-		return carl::getDenom(_in.value());
-	}
-
-	/**
-	 * Implicitly converts the number to a rational and returns the nominator.
-	 * @param _in Number.
-	 * @return Cln interger which holds the result.
-	 */
-	inline cln::cl_I getNum(const FLOAT_T<cln::cl_RA>& _in)
-	{
-		return carl::getNum(_in.value());
-	}
-	#endif
-	/**
-	 * Implicitly converts the number to a rational and returns the denominator.
-	 * @param _in Number.
-	 * @return GMP interger which holds the result.
-	 */
-	inline mpz_class getDenom(const FLOAT_T<mpq_class>& _in)
-	{
-		return carl::getDenom(_in.value());
-	}
-
-	/**
-	 * Implicitly converts the number to a rational and returns the nominator.
-	 * @param _in Number.
-	 * @return GMP interger which holds the result.
-	 */
-	inline mpz_class getNum(const FLOAT_T<mpq_class>& _in)
-	{
-		return carl::getNum(_in.value());
-	}
-
-	template<typename FloatType>
-	inline bool isZero(const FLOAT_T<FloatType>& _in) {
-		return isZero(_in.value());
-	}
-
-	template<typename FloatType>
-	inline bool isInfinity(const FLOAT_T<FloatType>& _in) {
-		return _in.value() == std::numeric_limits<FloatType>::infinity();
-	}
-
-	template<typename FloatType>
-	inline bool isNan(const FLOAT_T<FloatType>& _in) {
-		return _in.value() == std::numeric_limits<FloatType>::quiet_NaN();
-	}
-
-	template<>
-	inline bool AlmostEqual2sComplement<FLOAT_T<double>>(const FLOAT_T<double>& A, const FLOAT_T<double>& B, unsigned maxUlps)
-	{
-		return AlmostEqual2sComplement<double>(A.value(), B.value(), maxUlps);
-	}
-
-} // namespace
-
-namespace std{
-
-	template<typename Number>
-	struct hash<carl::FLOAT_T<Number>> {
-		size_t operator()(const carl::FLOAT_T<Number>& _in) const {
-			return hasher(_in.value());
-		}
-	private:
-		std::hash<Number> hasher;
-	};
-
-	template<typename Number>
-	class numeric_limits<carl::FLOAT_T<Number>>
-	{
-	public:
-		static const bool is_specialized	= true;
-		static const bool is_signed			= true;
-		static const bool is_integer		= false;
-		static const bool is_exact			= false;
-		static const int  radix				= 2;
-
-		static const bool has_infinity		= true;
-		static const bool has_quiet_NaN		= true;
-		static const bool has_signaling_NaN	= true;
-
-		static const bool is_iec559			= true;	// = IEEE 754
-		static const bool is_bounded		= true;
-		static const bool is_modulo			= false;
-		static const bool traps				= true;
-		static const bool tinyness_before	= true;
-
-		inline static carl::FLOAT_T<Number> (min)() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::min()); }
-		inline static carl::FLOAT_T<Number> (max)() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::max()); }
-		inline static carl::FLOAT_T<Number> lowest() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::lowest()); }
-
-		inline static carl::FLOAT_T<Number> epsilon() {  return carl::FLOAT_T<Number>(std::numeric_limits<Number>::epsilon()); }
-
-		inline static carl::FLOAT_T<Number> round_error() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::round_error()); }
-
-		inline static const carl::FLOAT_T<Number> infinity() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::infinity()); }
-
-		inline static const carl::FLOAT_T<Number> quiet_NaN() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::quiet_NaN()); }
-		inline static const carl::FLOAT_T<Number> signaling_NaN() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::signaling_NaN()); }
-		inline static const carl::FLOAT_T<Number> denorm_min() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::denorm_min()); }
-
-		static const int min_exponent = std::numeric_limits<Number>::min_exponent;
-		static const int max_exponent = std::numeric_limits<Number>::max_exponent;
-		static const int min_exponent10 = std::numeric_limits<Number>::min_exponent10;
-		static const int max_exponent10 = std::numeric_limits<Number>::max_exponent10;
-
-		inline static float_round_style round_style() { return std::numeric_limits<Number>::round_style; }
-
-		inline static int digits() { return std::numeric_limits<Number>::digits; }
-		inline static int digits10() { return std::numeric_limits<Number>::digits10; }
-		inline static int max_digits10() { return std::numeric_limits<Number>::max_digits10; }
-	};
-}
-
-
-#include "mpfr_float.tpp"
+/**
+ * General class for floating point numbers with different formats. Extend to
+ * other types if necessary.
+ *
+ * @file FLOAT_T.h
+ * @author  Stefan Schupp <stefan.schupp@cs.rwth-aachen.de>
+ * @since   2013-10-14
+ * @version 2014-08-28
+ */
+
+#pragma once
+
+#ifndef INCLUDED_FROM_NUMBERS_H
+static_assert(false, "This file may only be included indirectly by numbers.h");
+#endif
+
+
+//#include "../../core/logging.h"
+#include "../../util/hash.h"
+#include "../../util/SFINAE.h"
+#include "roundingConversion.h"
+
+#include <cfloat>
+#include <cmath>
+#include <cstddef>
+#include <iostream>
+#include <string>
+
+namespace carl
+{
+	using precision_t = std::size_t;
+
+	template<typename Number>
+    class Interval;
+
+	template<typename FloatType>
+	class FLOAT_T;
+
+	/**
+	 * Struct which holds the conversion operator for any two instanciations of
+	 * FLOAT_T with different underlying floating point implementations. Note
+	 * that this conversion introduces loss of precision, as it uses the toDouble()
+	 * method and the corresponding double constructor from the target type.
+	 */
+	template<typename T1, typename T2>
+	struct FloatConv
+	{
+		/**
+		 * Conversion operator for conversion of two instanciations of FLOAT_T
+		 * with different underlying floating point implementations.
+		 * @param _op2 The source instanciation (T2)
+		 * @return returns an instanciation with different floating point implementation (T1)
+		 */
+		FLOAT_T<T1> operator() (const FLOAT_T<T2>& _op2) const
+		{
+			return FLOAT_T<T1>(_op2.toDouble());
+		}
+	};
+
+
+	enum Str2Double_Error { FLOAT_SUCCESS, FLOAT_OVERFLOW, FLOAT_UNDERFLOW, FLOAT_INCONVERTIBLE };
+
+	inline Str2Double_Error str2double (double &d, char const *s)
+	{
+		char *end;
+		long double  l;
+		errno = 0;
+		l = strtod(s, &end);
+		if ((errno == ERANGE && l == LDBL_MAX) || l > DBL_MAX) {
+			return FLOAT_OVERFLOW;
+		}
+		if ((errno == ERANGE && l == LDBL_MIN) || l < DBL_MIN) {
+			return FLOAT_UNDERFLOW;
+		}
+		if (*s == '\0' || *end != '\0') {
+			return FLOAT_INCONVERTIBLE;
+		}
+		d = double(l);
+		return FLOAT_SUCCESS;
+	}
+
+	// Usable AlmostEqual function taken from http://www.cygnus-software.com/papers/comparingfloats/comparingfloats.htm
+	template<typename Number>
+	inline bool AlmostEqual2sComplement(const Number& A, const Number& B, unsigned /*unused*/ = 128)
+	{
+		return A == B;
+	}
+
+	template<>
+	inline bool AlmostEqual2sComplement<double>(const double& A, const double& B, unsigned maxUlps)
+	{
+		// Make sure maxUlps is non-negative and small enough that the
+		// default NAN won't compare as equal to anything.
+		assert(maxUlps > 0 && maxUlps < 4 * 1024 * 1024);
+		sint aInt = *reinterpret_cast<const sint*>(&A);
+		// Make aInt lexicographically ordered as a twos-complement int
+		if (aInt < 0)
+			aInt = static_cast<sint>(0x8000000000000000) - aInt;
+		// Make bInt lexicographically ordered as a twos-complement int
+		sint bInt = *reinterpret_cast<const sint*>(&B);
+		if (bInt < 0)
+			bInt = static_cast<sint>(0x8000000000000000) - bInt;
+		uint intDiff = aInt > bInt ? static_cast<uint>(aInt) - static_cast<uint>(bInt) : static_cast<uint>(bInt) - static_cast<uint>(aInt);
+		return intDiff <= maxUlps;
+	}
+
+	/**
+	 * Templated wrapper class which allows universal usage of different
+	 * IEEE 754 implementations.
+	 * For each implementation intended to use it is necessary to implement the
+	 * according specialization of this class.
+	 */
+	template<typename FloatType>
+	class FLOAT_T
+	{
+		static_assert(carl::is_subset_of_integers<FloatType>::value == false, "FLOAT_T may not be used with integers.");
+	private:
+		FloatType mValue;
+
+	public:
+
+		/**
+		 * Default empty constructor, which initializes to zero.
+		 */
+		FLOAT_T<FloatType>() :
+			mValue()
+		{}
+
+		/**
+		 * Constructor, which takes a double as input and optional rounding, which
+		 * can be used, if the underlying fp implementation allows this.
+		 * @param _double Value to be initialized.
+		 * @param N Possible rounding direction.
+		 */
+		explicit FLOAT_T<FloatType>(double _double, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(carl::convert<double, FloatType>(_double))
+		{
+		}
+
+		/**
+		 * Constructor, which takes an integer as input and optional rounding, which
+		 * can be used, if the underlying fp implementation allows this.
+		 * @param _int Value to be initialized.
+		 * @param N Possible rounding direction.
+		 */
+		explicit FLOAT_T<FloatType>(sint _int, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(FloatType(_int))
+		{
+		}
+
+		explicit FLOAT_T<FloatType>(int _int, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(FloatType(_int))
+		{
+		}
+
+		/**
+		 * Constructor, which takes an unsigned integer as input and optional rounding, which
+		 * can be used, if the underlying fp implementation allows this.
+		 * @param _int Value to be initialized.
+		 * @param N Possible rounding direction.
+		 */
+		explicit FLOAT_T<FloatType>(unsigned _int, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(FloatType(_int))
+		{
+		}
+
+		/**
+		 * Copyconstructor which takes a FLOAT_T<FloatType>  and optional rounding
+		 * as input, which can be used, if the underlying fp implementation
+		 * allows this.
+		 * @param _float Value to be initialized.
+		 * @param N Possible rounding direction.
+		 */
+		FLOAT_T<FloatType>(const FLOAT_T<FloatType>& _float, CARL_RND /*unused*/ = CARL_RND::N) : mValue(_float.mValue)
+		{}
+
+		FLOAT_T<FloatType>(FLOAT_T<FloatType>&& _float, CARL_RND /*unused*/ = CARL_RND::N) noexcept : mValue(std::move(_float.value())) // NOLINT
+		{}
+
+		/**
+		 * Constructor, which takes an arbitrary fp type as input and optional rounding, which
+		 * can be used, if the underlying fp implementation allows this.
+		 * @param val Value to be initialized.
+		 * @param N Possible rounding direction.
+		 */
+		template<typename F = FloatType, DisableIf< std::is_same<F, double> > = dummy>
+		explicit FLOAT_T<FloatType>(FloatType val, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(std::move(val))
+		{
+		}
+
+		template<typename F = FloatType, EnableIf< carl::is_rational<F> > = dummy>
+		explicit FLOAT_T<FloatType>(const std::string& _string, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(carl::rationalize<FloatType>(_string))
+		{
+		}
+
+		template<typename F = FloatType, EnableIf< std::is_same<F, double> > = dummy>
+		explicit FLOAT_T<FloatType>(const std::string& _string, CARL_RND /*unused*/ = CARL_RND::N):
+			mValue(std::stod(_string))
+		{
+		}
+
+		/**
+		 * Destructor. Note that for some specializations memory management has to
+		 * be included here.
+		 */
+		~FLOAT_T() = default;
+
+		/**
+		 * Getter for the raw value contained.
+		 * @return Raw value.
+		 */
+		const FloatType& value() const {
+			return mValue;
+		}
+
+		/**
+		 * If precision is used, this getter returns the acutal precision (default:
+		 * 53 bit).
+		 * @return Precision.
+		 */
+		precision_t precision() const
+		{
+			return 0;
+		}
+
+		/**
+		 * Allows to set the desired precision. Note: If the value is already
+		 * initialized this can change the internal value.
+		 * @param Precision in bits.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& setPrecision(const precision_t& /*unused*/)
+		{
+			return *this;
+		}
+
+		/**
+		 * Assignment operator.
+		 * @param _rhs Righthand side of the assignment.
+		 * @return Reference to this.
+		 */
+		FLOAT_T& operator =(const FLOAT_T& _rhs) = default;
+
+		FLOAT_T& operator =(const FloatType& _rhs)
+		{
+			mValue = _rhs;
+			return *this;
+		}
+
+		/**
+		 * Comparison operator for equality.
+		 * @param _rhs Righthand side of the comparison.
+		 * @return True if _rhs equals this.
+		 */
+		bool operator ==(const FLOAT_T<FloatType>& _rhs) const
+		{
+			//std::cout << "COMPARISON: " << *this << " == " << _rhs << " : " << (mValue == _rhs.mValue) << std::endl;
+			return mValue == _rhs.mValue;
+			// return AlmostEqual2sComplement(double(mValue), double(_rhs.mValue), 4);
+		}
+
+		/**
+		 * Comparison operator for inequality.
+		 * @param _rhs Righthand side of the comparison.
+		 * @return True if _rhs is unequal to this.
+		 */
+		bool operator !=(const FLOAT_T<FloatType> & _rhs) const
+		{
+			return mValue != _rhs.mValue;
+		}
+
+		/**
+		 * Comparison operator for larger than.
+		 * @param _rhs Righthand side of the comparison.
+		 * @return True if _rhs is larger than this.
+		 */
+		bool operator>(const FLOAT_T<FloatType> & _rhs) const
+		{
+			return mValue > _rhs.mValue;
+		}
+
+		bool operator>(int _rhs) const
+		{
+			return mValue > _rhs;
+		}
+
+		bool operator>(unsigned _rhs) const
+		{
+			return mValue > _rhs;
+		}
+
+
+		/**
+		 * Comparison operator for less than.
+		 * @param _rhs Righthand side of the comparison.
+		 * @return  True if _rhs is smaller than this.
+		 */
+		bool operator<(const FLOAT_T<FloatType> & _rhs) const
+		{
+			return mValue < _rhs.mValue;
+		}
+
+		bool operator<(int _rhs) const
+		{
+			return mValue < _rhs;
+		}
+
+		bool operator<(unsigned _rhs) const
+		{
+			return mValue < _rhs;
+		}
+
+		/**
+		 * Comparison operator for less or equal than.
+		 * @param _rhs Righthand side of the comparison.
+		 * @return True if _rhs is larger or equal than this.
+		 */
+		bool operator <=(const FLOAT_T<FloatType> & _rhs) const
+		{
+			return mValue <= _rhs.mValue;
+		}
+
+		/**
+		 * Comparison operator for larger or equal than.
+		 * @param _rhs Righthand side of the comparison.
+		 * @return True if _rhs is smaller or equal than this.
+		 */
+		bool operator >=(const FLOAT_T<FloatType> & _rhs) const
+		{
+			return mValue >= _rhs.mValue;
+		}
+
+		/**
+		 * Function for addition of two numbers, which assigns the result to the
+		 * calling number.
+		 * @param _op2 Righthand side of the operation
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& add_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = mValue + _op2.mValue;
+			return *this;
+		}
+
+		/**
+		 * Function which adds two numbers and puts the result in a third number passed as parameter.
+		 * @param _result Result of the operation.
+		 * @param _op2 Righthand side of the operation.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& add(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = mValue + _op2.mValue;
+			return _result;
+		}
+
+		/**
+		 * Function for subtraction of two numbers, which assigns the result to the
+		 * calling number.
+		 * @param _op2 Righthand side of the operation
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& sub_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = mValue - _op2.mValue;
+			return *this;
+		}
+
+		/**
+		 * Function which subtracts the righthand side from this number and puts
+		 * the result in a third number passed as parameter.
+		 * @param _result Result of the operation.
+		 * @param _op2 Righthand side of the operation.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& sub(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = mValue - _op2.mValue;
+			return _result;
+		}
+
+		/**
+		 * Function for multiplication of two numbers, which assigns the result to the
+		 * calling number.
+		 * @param _op2 Righthand side of the operation
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& mul_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = mValue * _op2.mValue;
+			return *this;
+		}
+
+		/**
+		 * Function which multiplicates two numbers and puts the result in a
+		 * third number passed as parameter.
+		 * @param _result Result of the operation.
+		 * @param _op2 Righthand side of the operation.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& mul(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = mValue * _op2.mValue;
+			return _result;
+		}
+
+		/**
+		 * Function for division of two numbers, which assigns the result to the
+		 * calling number.
+		 * @param _op2 Righthand side of the operation
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& div_assign(const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			assert(!isZero(_op2));
+			mValue = mValue / _op2.mValue;
+			return *this;
+		}
+
+		/**
+		 * Function which divides this number by the righthand side and puts the
+		 * result in a third number passed as parameter.
+		 * @param _result Result of the operation.
+		 * @param _op2 Righthand side of the operation.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& div(FLOAT_T<FloatType>& _result, const FLOAT_T<FloatType>& _op2, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			assert(_op2 != 0);
+			_result.mValue = mValue / _op2.mValue;
+			return _result;
+		}
+
+		/**
+		 * Function for the square root of the number, which assigns the result to the
+		 * calling number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& sqrt_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			assert(mValue >= 0);
+			mValue = std::sqrt(mValue);
+			return *this;
+		}
+
+		/**
+		 * Returns the square root of this number and puts it into a passed result
+		 * parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& sqrt(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			assert(mValue >= 0);
+			_result.mValue = carl::sqrt(mValue);
+			return _result;
+		}
+
+		/**
+		 * Function for the cubic root of the number, which assigns the result to the
+		 * calling number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& cbrt_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			assert(*this >= 0);
+			mValue = std::cbrt(mValue);
+			return *this;
+		}
+
+		/**
+		 * Returns the cubic root of this number and puts it into a passed result
+		 * parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& cbrt(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			assert(*this >= 0);
+			_result.mValue = std::cbrt(mValue);
+			return _result;
+		}
+
+		/**
+		 * Function for the nth root of the number, which assigns the result to the
+		 * calling number.
+		 * @param Degree of the root.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& root_assign(std::size_t /*unused*/, CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			assert(*this >= 0);
+			/// @todo implement root_assign for FLOAT_T
+			assert(false && "not implemented");
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the nth root of this number and puts it into a passed result
+		 * parameter.
+		 * @param Result.
+		 * @param Degree of the root.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& root(FLOAT_T<FloatType>& /*unused*/, std::size_t /*unused*/, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			assert(*this >= 0);
+			/// @todo implement root for FLOAT_T
+			assert(false && "not implemented");
+		}
+
+		/**
+		 * Function for the nth power of the number, which assigns the result to the
+		 * calling number.
+		 * @param _exp Exponent.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& pow_assign(std::size_t _exp, CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::pow(mValue, _exp);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the power of this number and puts it into a passed result
+		 * parameter.
+		 * @param _result Result.
+		 * @param _exp Exponent.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& pow(FLOAT_T<FloatType>& _result, std::size_t _exp, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::pow(mValue, _exp);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the absolute value of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& abs_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = carl::abs(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the absolute value of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& abs(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::abs(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the exponential of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& exp_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::exp(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the exponential of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& exp(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::exp(this->mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the sine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& sin_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = carl::sin(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the sine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& sin(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::sin(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the cosine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& cos_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = carl::cos(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the cosine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& cos(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::cos(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the logarithm of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& log_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::log(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the logarithm of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& log(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::log(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the tangent of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& tan_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::tan(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the tangent of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& tan(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::tan(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the arcus sine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& asin_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::asin(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the arcus sine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& asin(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::asin(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the arcus cosine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& acos_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::acos(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the arcus cosine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& acos(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::acos(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the arcus tangent of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& atan_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::atan(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the arcus tangent of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& atan(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::atan(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the hyperbolic sine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& sinh_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::sinh(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the hyperbolic sine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& sinh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::sinh(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the hyperbolic cosine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& cosh_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::cosh(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the hyperbolic cosine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& cosh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::cosh(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the hyperbolic tangent of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& tanh_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::tanh(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the hyperbolic tangent of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& tanh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::tanh(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the hyperbolic arcus sine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& asinh_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::asinh(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the hyperbolic arcus sine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& asinh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::asinh(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the hyperbolic arcus cosine of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& acosh_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::acosh(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the hyperbolic arcus cosine of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& acosh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::acosh(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the hyperbolic arcus tangent of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& atanh_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::atanh(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the hyperbolic arcus tangent of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& atanh(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = std::atanh(mValue);
+			return _result;
+		}
+
+		/**
+		 * Function which calculates the floor of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& floor(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::floor(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the floor of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& floor_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = carl::floor(mValue);
+			return *this;
+		}
+
+		/**
+		 * Function which calculates the ceiling of this number and puts
+		 * it into a passed result parameter.
+		 * @param _result Result.
+		 * @param N Possible rounding direction.
+		 * @return Reference to the result.
+		 */
+		FLOAT_T<FloatType>& ceil(FLOAT_T<FloatType>& _result, CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			_result.mValue = carl::ceil(mValue);
+			return _result;
+		}
+
+		/**
+		 * Assigns the number the ceiling of this number.
+		 * @param N Possible rounding direction.
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& ceil_assign(CARL_RND /*unused*/ = CARL_RND::N)
+		{
+			mValue = std::ceil(mValue);
+			return *this;
+		}
+
+
+		/**
+		 * Function which converts the number to a double value.
+		 * @param N Possible rounding direction.
+		 * @return Double representation of this
+		 */
+		double toDouble(CARL_RND /*unused*/ = CARL_RND::N) const
+		{
+			return carl::toDouble(mValue);
+		}
+
+
+		/**
+		 * Explicit typecast operator to integer.
+		 * @return Integer representation of this.
+		 */
+		explicit operator int() const
+		{
+			if(*this >= 0)
+				return carl::toInt<int>(carl::floor(mValue));
+			else
+				return carl::toInt<int>(carl::ceil(mValue));
+		}
+
+		/**
+		 * Explicit typecast operator to long.
+		 * @return Long representation of this.
+		 */
+		explicit operator long() const
+		{
+			return carl::toInt<long>(mValue);
+		}
+
+		/**
+		 * Explicit typecast operator to double.
+		 * @return Double representation of this.
+		 */
+		explicit operator double() const
+		{
+			return carl::toDouble(mValue);
+		}
+
+		explicit operator mpq_class() const {
+			return carl::rationalize<mpq_class>(mValue);
+		}
+
+#ifdef USE_CLN_NUMBERS
+		explicit operator cln::cl_RA() const {
+			return carl::rationalize<cln::cl_RA>(mValue);
+		}
+#endif
+
+		/**
+		 * Output stream operator for numbers of type FLOAT_T.
+		 * @param ostr Output stream.
+		 * @param p Number.
+		 * @return Reference to the ostream.
+		 */
+		friend std::ostream& operator<<(std::ostream& ostr, const FLOAT_T<FloatType>& p)
+		{
+			ostr << p.mValue;
+			return ostr;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the complex conjugate.
+		 * @param x The passed number.
+		 * @return Reference to x.
+		 */
+		inline const FLOAT_T<FloatType>& ei_conj(const FLOAT_T<FloatType>& x)
+		{
+			return x;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the real part.
+		 * @param x The passed number.
+		 * @return Reference to x.
+		 */
+		inline const FLOAT_T<FloatType>& ei_real(const FLOAT_T<FloatType>& x)
+		{
+			return x;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the imaginary part.
+		 * @param x The passed number.
+		 * @return Zero.
+		 */
+		inline FLOAT_T<FloatType> ei_imag(const FLOAT_T<FloatType>& /*unused*/)
+		{
+			return FLOAT_T<FloatType>(0);
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the absolute value.
+		 * @param x The passed number.
+		 * @return Number which holds the absolute value of x.
+		 */
+		inline FLOAT_T<FloatType> ei_abs(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.abs(res);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the absolute value (special Eigen3
+		 * version).
+		 * @param x The passed number.
+		 * @return Number which holds the absolute value of x according to abs2 of Eigen3.
+		 */
+		inline FLOAT_T<FloatType> ei_abs2(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.mul(res, x);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the square root.
+		 * @param x The passed number.
+		 * @return Number which holds the square root of x.
+		 */
+		inline FLOAT_T<FloatType> ei_sqrt(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.sqrt(res);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the exponential.
+		 * @param x The passed number.
+		 * @return Number which holds the exponential of x.
+		 */
+		inline FLOAT_T<FloatType> ei_exp(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.exp(res);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the logarithm.
+		 * @param x The passed number.
+		 * @return Number which holds the logarithm of x.
+		 */
+		inline FLOAT_T<FloatType> ei_log(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.log(res);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the sine.
+		 * @param x The passed number.
+		 * @return Number which holds the sine of x.
+		 */
+		inline FLOAT_T<FloatType> ei_sin(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.sin(res);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the cosine.
+		 * @param x The passed number.
+		 * @return Number which holds the cosine of x.
+		 */
+		inline FLOAT_T<FloatType> ei_cos(const FLOAT_T<FloatType>& x)
+		{
+			FLOAT_T<FloatType> res;
+			x.cos(res);
+			return res;
+		}
+
+		/**
+		 * Function required for extension of Eigen3 with FLOAT_T as
+		 * a custom type which calculates the power.
+		 * @param x The passed number.
+		 * @param y Degree.
+		 * @return Number which holds the power of x of degree y.
+		 */
+		inline FLOAT_T<FloatType> ei_pow(const FLOAT_T<FloatType>& x, FLOAT_T<FloatType> y)
+		{
+			FLOAT_T<FloatType> res;
+			x.pow(res, unsigned(y));
+			return res;
+		}
+
+		/**
+		 * Operator for addition of two numbers
+		 * @param _lhs Lefthand side.
+		 * @param _rhs Righthand side.
+		 * @return Number which holds the result.
+		 */
+		friend FLOAT_T<FloatType> operator +(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
+		{
+			return FLOAT_T<FloatType>(_lhs.mValue + _rhs.mValue);
+		}
+
+		/**
+		 * Operator for subtraction of two numbers
+		 * @param _lhs Lefthand side.
+		 * @param _rhs Righthand side.
+		 * @return Number which holds the result.
+		 */
+		friend FLOAT_T<FloatType> operator -(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
+		{
+			return FLOAT_T<FloatType>(_lhs.mValue - _rhs.mValue);
+		}
+
+		/**
+		 * Operator for unary negation of a number.
+		 * @param _lhs Lefthand side.
+		 * @return Number which holds the result.
+		 */
+		friend FLOAT_T<FloatType> operator -(const FLOAT_T<FloatType>& _lhs)
+		{
+			return FLOAT_T<FloatType>(-1)*_lhs;
+		}
+
+		/**
+		 * Operator for addition of two numbers.
+		 * @param _lhs Lefthand side.
+		 * @param _rhs Righthand side.
+		 * @return Number which holds the result.
+		 */
+		friend FLOAT_T<FloatType> operator *(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
+		{
+			return FLOAT_T<FloatType>(_lhs.mValue * _rhs.mValue);
+		}
+
+		/**
+		 * Operator for addition of two numbers.
+		 * @param _lhs Lefthand side.
+		 * @param _rhs Righthand side.
+		 * @return Number which holds the result.
+		 */
+		friend FLOAT_T<FloatType> operator /(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
+		{
+			assert(_rhs != FLOAT_T<FloatType>(0));
+			return FLOAT_T<FloatType>(_lhs.mValue / _rhs.mValue);
+		}
+
+		/**
+		 * Operator which increments this number by one.
+		 * @param _num
+		 * @return Reference to _num.
+		 */
+		friend FLOAT_T<FloatType>& operator ++(FLOAT_T<FloatType>& _num)
+		{
+			_num.mValue += FLOAT_T<FloatType>(1);
+			return _num;
+		}
+
+		/**
+		 * Operator which decrements this number by one.
+		 * @param _num
+		 * @return Reference to _num.
+		 */
+		friend FLOAT_T<FloatType>& operator --(FLOAT_T<FloatType>& _num)
+		{
+			_num.mValue -= FLOAT_T<FloatType>(1);
+			return _num;
+		}
+
+		/**
+		 * Operator which adds the righthand side to this.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator +=(const FLOAT_T<FloatType>& _rhs)
+		{
+			mValue = mValue + _rhs.mValue;
+			return *this;
+		}
+
+		/**
+		 * Operator which adds the righthand side of the underlying type to this.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator +=(const FloatType& _rhs)
+		{
+			mValue = mValue + _rhs;
+			return *this;
+		}
+
+		/**
+		 * Operator which subtracts the righthand side from this.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator -=(const FLOAT_T<FloatType>& _rhs)
+		{
+			mValue = mValue - _rhs.mValue;
+			return *this;
+		}
+
+		/**
+		 * Operator which subtracts the righthand side of the underlying type from this.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator -=(const FloatType& _rhs)
+		{
+			mValue = mValue - _rhs;
+			return *this;
+		}
+
+		/**
+		 * Operator for unary negation of this number.
+		 * @return Number which holds the negated original number.
+		 */
+		FLOAT_T<FloatType> operator-()
+		{
+			FLOAT_T<FloatType> result = FLOAT_T<FloatType>(*this);
+			result *= FLOAT_T<FloatType>(-1);
+			return result;
+		}
+
+		/**
+		 * Operator which multiplicates this number by the righthand side.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator *=(const FLOAT_T<FloatType>& _rhs)
+		{
+			mValue = mValue * _rhs.mValue;
+			return *this;
+		}
+
+		/**
+		 * Operator which multiplicates this number by the righthand side of the
+		 * underlying type.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator *=(const FloatType& _rhs)
+		{
+			mValue = mValue * _rhs;
+			return *this;
+		}
+
+		/**
+		 * Operator which divides this number by the righthand side.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator /=(const FLOAT_T<FloatType>& _rhs)
+		{
+			mValue = mValue / _rhs.mValue;
+			return *this;
+		}
+
+		/**
+		 * Operator which divides this number by the righthand side of the underlying
+		 * type.
+		 * @param _rhs
+		 * @return Reference to this.
+		 */
+		FLOAT_T<FloatType>& operator /=(const FloatType& _rhs)
+		{
+			mValue = mValue / _rhs;
+			return *this;
+		}
+
+		/**
+		 * Method which converts this number to a string.
+		 * @return String representation of this number.
+		 */
+		std::string toString() const
+		{
+			return carl::toString(mValue);
+		}
+	};
+
+	template<typename FloatType>
+	inline bool isInteger(const FLOAT_T<FloatType>& in) {
+		return carl::isInteger(in.value());
+	}
+
+	/**
+	 * Implements the division which assumes that there is no remainder.
+	 * @param _lhs
+	 * @param _rhs
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> div(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
+	{
+		// TODO
+		FLOAT_T<FloatType> result;
+		result = _lhs / _rhs;
+		return result;
+	}
+
+	/**
+	 * Implements the division with remainder.
+	 * @param _lhs
+	 * @param _rhs
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> quotient(const FLOAT_T<FloatType>& _lhs, const FLOAT_T<FloatType>& _rhs)
+	{
+		// TODO
+		FLOAT_T<FloatType> result;
+		result = _lhs / _rhs;
+		return result;
+	}
+
+	/**
+	 * Casts the FLOAT_T to an arbitrary integer type which has a constructor for
+	 * a native int.
+	 * @param _float
+	 * @return Integer type which holds floor(_float).
+	 */
+	template<typename Integer, typename FloatType>
+	inline Integer toInt(const FLOAT_T<FloatType>& _float)
+	{
+		return carl::toInt<Integer>(_float.value());
+	}
+
+	template<typename FloatType>
+	inline double toDouble(const FLOAT_T<FloatType>& _float)
+	{
+		return double(_float);
+	}
+
+	/**
+	 * Method which returns the absolute value of the passed number.
+	 * @param _in Number.
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> abs(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.abs(result);
+		return result;
+	}
+
+	/**
+	 * Method which returns the logarithm of the passed number.
+	 * @param _in Number.
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> log(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.log(result);
+		return result;
+	}
+
+	/**
+	 * Method which returns the square root of the passed number.
+	 * @param _in Number.
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> sqrt(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.sqrt(result);
+		return result;
+	}
+
+	template<typename FloatType>
+	inline std::pair<FLOAT_T<FloatType>, FLOAT_T<FloatType>> sqrt_safe(const FLOAT_T<FloatType>& _in)
+	{
+		return carl::sqrt_safe(_in.value());
+	}
+
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> pow(const FLOAT_T<FloatType>& _in, size_t _exp)
+	{
+		FLOAT_T<FloatType> result;
+		_in.pow(result, _exp);
+		return result;
+	}
+
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> sin(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.sin(result);
+		return result;
+	}
+
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> cos(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.cos(result);
+		return result;
+	}
+
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> asin(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.asin(result);
+		return result;
+	}
+
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> acos(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.acos(result);
+		return (result);
+	}
+
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> atan(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.atan(result);
+		return result;
+	}
+
+	/**
+	 * Method which returns the next smaller integer of this number or the number
+	 * itself, if it is already an integer.
+	 * @param _in Number.
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> floor(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.floor(result);
+		return result;
+	}
+
+	/**
+	 * Method which returns the next larger integer of the passed number or the
+	 * number itself, if it is already an integer.
+	 * @param _in Number.
+	 * @return Number which holds the result.
+	 */
+	template<typename FloatType>
+	inline FLOAT_T<FloatType> ceil(const FLOAT_T<FloatType>& _in)
+	{
+		FLOAT_T<FloatType> result;
+		_in.ceil(result);
+		return result;
+	}
+
+	template<>
+	inline FLOAT_T<double> rationalize<FLOAT_T<double>>(double n)
+	{
+		return FLOAT_T<double>(n);
+	}
+
+	template<>
+	inline FLOAT_T<float> rationalize<FLOAT_T<float>>(float n)
+	{
+		return FLOAT_T<float>(n);
+	}
+
+	template<>
+	inline FLOAT_T<mpq_class> rationalize<FLOAT_T<mpq_class>>(double n)
+	{
+		return FLOAT_T<mpq_class>(carl::rationalize<mpq_class>(n));
+	}
+
+	#ifdef USE_CLN_NUMBERS
+
+	template<>
+	inline FLOAT_T<cln::cl_RA> rationalize<FLOAT_T<cln::cl_RA>>(double n)
+	{
+		return FLOAT_T<cln::cl_RA>(carl::rationalize<cln::cl_RA>(n));
+	}
+
+	/**
+	 * Implicitly converts the number to a rational and returns the denominator.
+	 * @param _in Number.
+	 * @return Cln interger which holds the result.
+	 */
+	inline cln::cl_I getDenom(const FLOAT_T<cln::cl_RA>& _in)
+	{
+		return carl::getDenom(_in.value());
+	}
+
+	/**
+	 * Implicitly converts the number to a rational and returns the nominator.
+	 * @param _in Number.
+	 * @return Cln interger which holds the result.
+	 */
+	inline cln::cl_I getNum(const FLOAT_T<cln::cl_RA>& _in)
+	{
+		return carl::getNum(_in.value());
+	}
+	#endif
+	/**
+	 * Implicitly converts the number to a rational and returns the denominator.
+	 * @param _in Number.
+	 * @return GMP interger which holds the result.
+	 */
+	inline mpz_class getDenom(const FLOAT_T<mpq_class>& _in)
+	{
+		return carl::getDenom(_in.value());
+	}
+
+	/**
+	 * Implicitly converts the number to a rational and returns the nominator.
+	 * @param _in Number.
+	 * @return GMP interger which holds the result.
+	 */
+	inline mpz_class getNum(const FLOAT_T<mpq_class>& _in)
+	{
+		return carl::getNum(_in.value());
+	}
+
+	template<typename FloatType>
+	inline bool isZero(const FLOAT_T<FloatType>& _in) {
+		return isZero(_in.value());
+	}
+
+	template<typename FloatType>
+	inline bool isInfinity(const FLOAT_T<FloatType>& _in) {
+		return _in.value() == std::numeric_limits<FloatType>::infinity();
+	}
+
+	template<typename FloatType>
+	inline bool isNan(const FLOAT_T<FloatType>& _in) {
+		return _in.value() == std::numeric_limits<FloatType>::quiet_NaN();
+	}
+
+	template<>
+	inline bool AlmostEqual2sComplement<FLOAT_T<double>>(const FLOAT_T<double>& A, const FLOAT_T<double>& B, unsigned maxUlps)
+	{
+		return AlmostEqual2sComplement<double>(A.value(), B.value(), maxUlps);
+	}
+
+} // namespace
+
+namespace std{
+
+	template<typename Number>
+	struct hash<carl::FLOAT_T<Number>> {
+		size_t operator()(const carl::FLOAT_T<Number>& _in) const {
+			return hasher(_in.value());
+		}
+	private:
+		std::hash<Number> hasher;
+	};
+
+	template<typename Number>
+	class numeric_limits<carl::FLOAT_T<Number>>
+	{
+	public:
+		static const bool is_specialized	= true;
+		static const bool is_signed			= true;
+		static const bool is_integer		= false;
+		static const bool is_exact			= false;
+		static const int  radix				= 2;
+
+		static const bool has_infinity		= true;
+		static const bool has_quiet_NaN		= true;
+		static const bool has_signaling_NaN	= true;
+
+		static const bool is_iec559			= true;	// = IEEE 754
+		static const bool is_bounded		= true;
+		static const bool is_modulo			= false;
+		static const bool traps				= true;
+		static const bool tinyness_before	= true;
+
+		inline static carl::FLOAT_T<Number> (min)() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::min()); }
+		inline static carl::FLOAT_T<Number> (max)() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::max()); }
+		inline static carl::FLOAT_T<Number> lowest() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::lowest()); }
+
+		inline static carl::FLOAT_T<Number> epsilon() {  return carl::FLOAT_T<Number>(std::numeric_limits<Number>::epsilon()); }
+
+		inline static carl::FLOAT_T<Number> round_error() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::round_error()); }
+
+		inline static const carl::FLOAT_T<Number> infinity() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::infinity()); }
+
+		inline static const carl::FLOAT_T<Number> quiet_NaN() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::quiet_NaN()); }
+		inline static const carl::FLOAT_T<Number> signaling_NaN() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::signaling_NaN()); }
+		inline static const carl::FLOAT_T<Number> denorm_min() { return carl::FLOAT_T<Number>(std::numeric_limits<Number>::denorm_min()); }
+
+		static const int min_exponent = std::numeric_limits<Number>::min_exponent;
+		static const int max_exponent = std::numeric_limits<Number>::max_exponent;
+		static const int min_exponent10 = std::numeric_limits<Number>::min_exponent10;
+		static const int max_exponent10 = std::numeric_limits<Number>::max_exponent10;
+
+		inline static float_round_style round_style() { return std::numeric_limits<Number>::round_style; }
+
+		inline static int digits() { return std::numeric_limits<Number>::digits; }
+		inline static int digits10() { return std::numeric_limits<Number>::digits10; }
+		inline static int max_digits10() { return std::numeric_limits<Number>::max_digits10; }
+	};
+}
+
+
+#include "mpfr_float.tpp"
-- 
2.43.0


From a1c6f1e263c20480a6617c125f78cc15d5457a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:24 +0000
Subject: [PATCH 050/141] fix: powers of the empty interval are empty

---
 src/carl/interval/power.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index ef4df23..c5b2a83 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -10,8 +10,10 @@ namespace carl {
 template<typename Number, typename Integer>
 Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 	assert(i.isConsistent());
-	if (exp == 0) {
-		return i.isEmpty() ? i : Interval<Number>(carl::constant_one<Number>().get());
+	if (i.isEmpty()) {
+		return Interval<Number>::emptyInterval();
+	} else if (exp == 0) {
+		return Interval<Number>(carl::constant_one<Number>().get());
 	} else if (exp % 2 == 0) {
 		if (i.isInfinite()) {
 			return Interval<Number>(carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY);
-- 
2.43.0


From 18289970f79a91b9a46f71575e26e83badaa9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:24 +0000
Subject: [PATCH 051/141] fix: converting rational intervals to floating point
 rounds outwards

---
 src/carl/interval/Interval.h   | 7 ++++++-
 src/carl/interval/conversion.h | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 8f05cd0..4b44bee 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -330,7 +330,12 @@ namespace carl
         template<typename Other, DisableIf<std::is_same<Number, Other >> = dummy >
         explicit Interval(const Interval<Other>& o)
         {
-            *this = Interval<Number>(carl::convert<Other,Number>(o.lower()), o.lowerBoundType(), carl::convert<Other,Number>(o.upper()), o.upperBoundType());
+            if constexpr (std::is_floating_point<Number>::value && is_rational<Other>::value) {
+                // rounds the bounds outwards
+                *this = Interval<Number>(o.lower(), o.lowerBoundType(), o.upper(), o.upperBoundType());
+            } else {
+                *this = Interval<Number>(carl::convert<Other,Number>(o.lower()), o.lowerBoundType(), carl::convert<Other,Number>(o.upper()), o.upperBoundType());
+            }
         }
 
         /**
diff --git a/src/carl/interval/conversion.h b/src/carl/interval/conversion.h
index 7d6c29b..f7daaf9 100644
--- a/src/carl/interval/conversion.h
+++ b/src/carl/interval/conversion.h
@@ -7,7 +7,7 @@ namespace carl {
 
     template<typename From, typename To, carl::DisableIf< std::is_same<From,To> > = dummy >
 	inline Interval<To> convert(const Interval<From>& i) {
-        return Interval<To>(carl::convert<From,To>(i.lower()), i.lowerBoundType(), carl::convert<From,To>(i.upper()), i.upperBoundType());
+        return Interval<To>(i);
     }
 
 	template<typename From, typename To, carl::EnableIf< std::is_same<From,To> > = dummy >
-- 
2.43.0


From c92e3c7da67831a0562b8ff3b7836a8cdedd69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:17 +0000
Subject: [PATCH 052/141] fix: bounds of interval quotients and reciprocals

---
 src/carl/interval/Interval.tpp | 49 +++++++++++++---------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index a59227a..f0d31aa 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -599,35 +599,22 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
-		BoundType lowerBoundType = BoundType::WEAK;
-        BoundType upperBoundType = BoundType::WEAK;
-		///@todo Correctly determine if bounds are strict or weak.
-		if (this->isOpenInterval() || rhs.isOpenInterval()) {
-			// just a quick heuristic, by no means complete.
-            lowerBoundType = BoundType::STRICT;
-            upperBoundType = BoundType::STRICT;
+		if (this->isEmpty() || rhs.isEmpty()) return emptyInterval();
+		if (this->isUnbounded() || rhs.isUnbounded() || carl::isZero(rhs.lower()) || carl::isZero(rhs.upper())) {
+			Interval<Number> a;
+			Interval<Number> b;
+			rhs.reciprocal(a, b);
+			return this->mul(a);
 		}
-        const Number& xl = mContent.lower();
-        const Number& yl = rhs.lower();
-        const Number& yu = rhs.upper();
-        const BoundType& xlt = mLowerBoundType;
-        const BoundType& xut = mUpperBoundType;
-        const BoundType& ylt = rhs.lowerBoundType();
-        const BoundType& yut = rhs.upperBoundType();
-        if( (xlt == BoundType::INFTY && (carl::isPositive(yu) || yut == BoundType::INFTY))
-		   || (xut == BoundType::INFTY && (carl::isNegative(yl) || ylt == BoundType::INFTY))
-		   || (ylt == BoundType::INFTY && (carl::isPositive(xl) || xut == BoundType::INFTY))
-		   || (yut == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY))) )
-        {
-            lowerBoundType = BoundType::INFTY;
-        }
-        if( (xlt == BoundType::INFTY && (carl::isNegative(yu) || (carl::isNegative(yl) || ylt == BoundType::INFTY)))
-		   || (xut == BoundType::INFTY && (carl::isPositive(yl) || (carl::isPositive(yu) || yut == BoundType::INFTY)))
-		   || (ylt == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY)))
-		   || (yut == BoundType::INFTY && (carl::isPositive(xl) || (carl::isPositive(xl) || xut == BoundType::INFTY))) )
-        {
-            upperBoundType = BoundType::INFTY;
-        }
+		// Both intervals are bounded and zero is no bound of rhs: find the bounds that yield the bounds of the quotient.
+		BoundType lowerBoundType = carl::isPositive(rhs.lower()) ? mLowerBoundType : mUpperBoundType;
+		BoundType upperBoundType = carl::isPositive(rhs.lower()) ? mUpperBoundType : mLowerBoundType;
+		const Number& forLower = carl::isPositive(rhs.lower()) ? mContent.lower() : mContent.upper();
+		const Number& forUpper = carl::isPositive(rhs.lower()) ? mContent.upper() : mContent.lower();
+		if (carl::isNegative(forLower)) lowerBoundType = getStrictestBoundType(lowerBoundType, rhs.lowerBoundType());
+		if (carl::isPositive(forLower)) lowerBoundType = getStrictestBoundType(lowerBoundType, rhs.upperBoundType());
+		if (carl::isNegative(forUpper)) upperBoundType = getStrictestBoundType(upperBoundType, rhs.upperBoundType());
+		if (carl::isPositive(forUpper)) upperBoundType = getStrictestBoundType(upperBoundType, rhs.lowerBoundType());
         return Interval<Number>(BoostInterval( mContent/rhs.content() ), lowerBoundType, upperBoundType );
 	}
 
@@ -742,7 +729,7 @@ template<typename Number>
 bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) const {
         if( this->isInfinite() )
         {
-            a = emptyInterval();
+            a = unboundedInterval();
             return false;
         }
         else if( this->contains( carl::constant_zero<Number>().get() ) && mContent.lower() != carl::constant_zero<Number>().get() && mContent.upper() != carl::constant_zero<Number>().get() )
@@ -783,7 +770,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
         {
             if( mLowerBoundType == BoundType::INFTY && mContent.upper() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_one<Number>().get() / mContent.upper() , mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
+                a = Interval<Number>( (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.upper() )).lower(), mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::STRICT );
             }
             else if( mLowerBoundType == BoundType::INFTY && mContent.upper() == carl::constant_zero<Number>().get() )
             {
@@ -791,7 +778,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, carl::constant_one<Number>().get()  /  mContent.lower(), mLowerBoundType );
+                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::STRICT, (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.lower() )).upper(), mLowerBoundType );
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() == carl::constant_zero<Number>().get() )
             {
-- 
2.43.0


From 4d68d776fe650d2d079da50dde8336ffd9bd4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:57 +0000
Subject: [PATCH 053/141] fix: assigning elementary functions of intervals
 update the bound types

---
 src/carl/interval/exponential.h   |  4 ++--
 src/carl/interval/trigonometric.h | 24 ++++++++++++------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/carl/interval/exponential.h b/src/carl/interval/exponential.h
index 3edd7d7..07b88e8 100644
--- a/src/carl/interval/exponential.h
+++ b/src/carl/interval/exponential.h
@@ -15,7 +15,7 @@ Interval<Number> exp(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void exp_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::exp(i.rContent()));
+	i = exp(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -27,7 +27,7 @@ Interval<Number> log(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void log_assign(Interval<Number>& i) {
 	assert(i.isConsistent() && i.isSemiPositive());
-	i.set(boost::numeric::log(i.rContent()));
+	i = log(i);
 }
 
 }
\ No newline at end of file
diff --git a/src/carl/interval/trigonometric.h b/src/carl/interval/trigonometric.h
index 17c1072..61e9fde 100644
--- a/src/carl/interval/trigonometric.h
+++ b/src/carl/interval/trigonometric.h
@@ -15,7 +15,7 @@ Interval<Number> sin(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void sin_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::sin(i.rContent()));
+	i = sin(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -27,7 +27,7 @@ Interval<Number> cos(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void cos_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::cos(i.rContent()));
+	i = cos(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -39,7 +39,7 @@ Interval<Number> tan(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void tan_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::tan(i.rContent()));
+	i = tan(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -51,7 +51,7 @@ Interval<Number> asin(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void asin_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::asin(i.rContent()));
+	i = asin(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -63,7 +63,7 @@ Interval<Number> acos(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void acos_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::acos(i.rContent()));
+	i = acos(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -75,7 +75,7 @@ Interval<Number> atan(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void atan_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::atan(i.rContent()));
+	i = atan(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -87,7 +87,7 @@ Interval<Number> sinh(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void sinh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::sinh(i.rContent()));
+	i = sinh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -99,7 +99,7 @@ Interval<Number> cosh(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void cosh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::cosh(i.rContent()));
+	i = cosh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -111,7 +111,7 @@ Interval<Number> tanh(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void tanh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::tanh(i.rContent()));
+	i = tanh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -123,7 +123,7 @@ Interval<Number> asinh(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void asinh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::asinh(i.rContent()));
+	i = asinh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -135,7 +135,7 @@ Interval<Number> acosh(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void acosh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::acosh(i.rContent()));
+	i = acosh(i);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -147,7 +147,7 @@ Interval<Number> atanh(const Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 void atanh_assign(Interval<Number>& i) {
 	assert(i.isConsistent());
-	i.set(boost::numeric::atanh(i.rContent()));
+	i = atanh(i);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From d86459d836db096360ddec05808747aa7cf7b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:57 +0000
Subject: [PATCH 054/141] fix: elementary functions of point intervals lost the
 point when the math library rounds inconsistently

---
 src/carl/interval/exponential.h   | 12 ++++++++++--
 src/carl/interval/trigonometric.h | 25 +++++++++++++------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/carl/interval/exponential.h b/src/carl/interval/exponential.h
index 07b88e8..35a61c3 100644
--- a/src/carl/interval/exponential.h
+++ b/src/carl/interval/exponential.h
@@ -6,10 +6,18 @@
 
 namespace carl {
 
+/**
+ * The math library does not respect the rounding mode, hence the bounds of an elementary function may be swapped for (almost) point intervals.
+ */
+template<typename BoostInterval>
+BoostInterval order_bounds(const BoostInterval& i) {
+	return i.lower() > i.upper() ? BoostInterval(i.upper(), i.lower()) : i;
+}
+
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> exp(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::exp(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::exp(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -21,7 +29,7 @@ void exp_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> log(const Interval<Number>& i) {
 	assert(i.isConsistent() && i.isSemiPositive());
-	return Interval<Number>(boost::numeric::log(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::log(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
diff --git a/src/carl/interval/trigonometric.h b/src/carl/interval/trigonometric.h
index 61e9fde..191f391 100644
--- a/src/carl/interval/trigonometric.h
+++ b/src/carl/interval/trigonometric.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Interval.h"
+#include "exponential.h"
 
 #include <cassert>
 
@@ -9,7 +10,7 @@ namespace carl {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::sin(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::sin(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -21,7 +22,7 @@ void sin_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::cos(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::cos(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -33,7 +34,7 @@ void cos_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tan(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::tan(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::tan(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -45,7 +46,7 @@ void tan_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> asin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::asin(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::asin(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -57,7 +58,7 @@ void asin_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::acos(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::acos(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -69,7 +70,7 @@ void acos_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> atan(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::atan(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::atan(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -81,7 +82,7 @@ void atan_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sinh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::sinh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::sinh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -93,7 +94,7 @@ void sinh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::cosh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::cosh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -105,7 +106,7 @@ void cosh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tanh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::tanh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::tanh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -117,7 +118,7 @@ void tanh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> asinh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::asinh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::asinh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -129,7 +130,7 @@ void asinh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::acosh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::acosh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -141,7 +142,7 @@ void acosh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> atanh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(boost::numeric::atanh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::atanh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
-- 
2.43.0


From ad63c722a6390c7abbe4b09ad798198812e5eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:57 +0000
Subject: [PATCH 055/141] fix: logarithm of intervals with lower bound zero

---
 src/carl/interval/exponential.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carl/interval/exponential.h b/src/carl/interval/exponential.h
index 35a61c3..6331fde 100644
--- a/src/carl/interval/exponential.h
+++ b/src/carl/interval/exponential.h
@@ -29,6 +29,12 @@ void exp_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> log(const Interval<Number>& i) {
 	assert(i.isConsistent() && i.isSemiPositive());
+	if (i.isEmpty() || i.isZero()) return Interval<Number>::emptyInterval();
+	if (carl::isZero(i.lower())) {
+		// the logarithm is not bounded from below
+		if (i.upperBoundType() == BoundType::INFTY) return Interval<Number>::unboundedInterval();
+		return Interval<Number>(order_bounds(boost::numeric::log(typename Interval<Number>::BoostInterval(i.upper()))), BoundType::INFTY, i.upperBoundType());
+	}
 	return Interval<Number>(order_bounds(boost::numeric::log(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
-- 
2.43.0


From 2b17cd7d942542b4719c1b6914ead8acee98d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:57 +0000
Subject: [PATCH 056/141] fix: trigonometric functions of intervals that are
 unbounded or not monotone

---
 src/carl/interval/trigonometric.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/trigonometric.h b/src/carl/interval/trigonometric.h
index 191f391..1850a61 100644
--- a/src/carl/interval/trigonometric.h
+++ b/src/carl/interval/trigonometric.h
@@ -10,7 +10,10 @@ namespace carl {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::sin(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	if (i.isEmpty()) return Interval<Number>::emptyInterval();
+	if (i.isUnbounded()) return Interval<Number>(Number(-1), Number(1));
+	// extrema may be attained inside of the interval
+	return Interval<Number>(order_bounds(boost::numeric::sin(i.rContent())), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -22,7 +25,10 @@ void sin_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::cos(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	if (i.isEmpty()) return Interval<Number>::emptyInterval();
+	if (i.isUnbounded()) return Interval<Number>(Number(-1), Number(1));
+	// extrema may be attained inside of the interval
+	return Interval<Number>(order_bounds(boost::numeric::cos(i.rContent())), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -34,6 +40,7 @@ void cos_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tan(const Interval<Number>& i) {
 	assert(i.isConsistent());
+	if (i.isUnbounded()) return Interval<Number>::unboundedInterval();
 	return Interval<Number>(order_bounds(boost::numeric::tan(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
@@ -58,7 +65,7 @@ void asin_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::acos(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return Interval<Number>(order_bounds(boost::numeric::acos(i.rContent())), i.upperBoundType(), i.lowerBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -94,7 +101,9 @@ void sinh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> cosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::cosh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	// the hyperbolic cosine is symmetric
+	Interval<Number> a = i.abs();
+	return Interval<Number>(order_bounds(boost::numeric::cosh(a.rContent())), a.lowerBoundType(), a.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -130,6 +139,7 @@ void asinh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
+	if (i.isEmpty()) return Interval<Number>::emptyInterval();
 	return Interval<Number>(order_bounds(boost::numeric::acosh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
 }
 
-- 
2.43.0


From a656d1aef2e1c05db1f5243c9636c54f9e2e28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:53 +0000
Subject: [PATCH 057/141] fix: canonical content for floating point intervals
 with two infinite bounds

---
 src/carl/interval/Interval.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 4b44bee..f4467ff 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -86,10 +86,13 @@ namespace carl
         using roundingP = boost::numeric::interval_lib::save_state<boost::numeric::interval_lib::rounded_transc_std<double> >; // TODO: change it to boost::numeric::interval_lib::rounded_transc_opp, if new boost release patches the bug with clang
         using checkingP = boost::numeric::interval_lib::checking_no_nan<double, boost::numeric::interval_lib::checking_no_nan<double> >;
 		static void sanitize(Interval& n) {
-			if (std::isinf(n.lower())) {
+			if (std::isinf(n.lower()) && std::isinf(n.upper())) {
+				n.set(0.0, 0.0);
 				n.setLowerBoundType(BoundType::INFTY);
-			}
-			if (std::isinf(n.upper())) {
+				n.setUpperBoundType(BoundType::INFTY);
+			} else if (std::isinf(n.lower())) {
+				n.setLowerBoundType(BoundType::INFTY);
+			} else if (std::isinf(n.upper())) {
 				n.setUpperBoundType(BoundType::INFTY);
 			}
 			assert(!std::isnan(n.lower()));
-- 
2.43.0


From 0913279f520cacb5ebef980747a23d0679dc303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:37 +0000
Subject: [PATCH 058/141] fix: elementary functions of very small open
 intervals lost their image

---
 src/carl/interval/exponential.h   | 19 ++++++++++++-------
 src/carl/interval/trigonometric.h | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/carl/interval/exponential.h b/src/carl/interval/exponential.h
index 6331fde..9f8b63c 100644
--- a/src/carl/interval/exponential.h
+++ b/src/carl/interval/exponential.h
@@ -7,17 +7,22 @@
 namespace carl {
 
 /**
- * The math library does not respect the rounding mode, hence the bounds of an elementary function may be swapped for (almost) point intervals.
+ * Builds the interval for the image of an elementary function.
+ * The math library does not respect the rounding mode, hence the bounds may coincide or even be swapped for very small intervals.
  */
-template<typename BoostInterval>
-BoostInterval order_bounds(const BoostInterval& i) {
-	return i.lower() > i.upper() ? BoostInterval(i.upper(), i.lower()) : i;
+template<typename Number>
+Interval<Number> elementary_image(const Interval<Number>& arg, const typename Interval<Number>::BoostInterval& i, BoundType lower, BoundType upper) {
+	if (arg.isEmpty()) return Interval<Number>::emptyInterval();
+	if (i.lower() < i.upper() || lower == BoundType::INFTY || upper == BoundType::INFTY) {
+		return Interval<Number>(i, lower, upper);
+	}
+	return Interval<Number>(i.upper(), i.lower());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> exp(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::exp(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::exp(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -33,9 +38,9 @@ Interval<Number> log(const Interval<Number>& i) {
 	if (carl::isZero(i.lower())) {
 		// the logarithm is not bounded from below
 		if (i.upperBoundType() == BoundType::INFTY) return Interval<Number>::unboundedInterval();
-		return Interval<Number>(order_bounds(boost::numeric::log(typename Interval<Number>::BoostInterval(i.upper()))), BoundType::INFTY, i.upperBoundType());
+		return elementary_image(i, boost::numeric::log(typename Interval<Number>::BoostInterval(i.upper())), BoundType::INFTY, i.upperBoundType());
 	}
-	return Interval<Number>(order_bounds(boost::numeric::log(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::log(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
diff --git a/src/carl/interval/trigonometric.h b/src/carl/interval/trigonometric.h
index 1850a61..89ebde5 100644
--- a/src/carl/interval/trigonometric.h
+++ b/src/carl/interval/trigonometric.h
@@ -13,7 +13,7 @@ Interval<Number> sin(const Interval<Number>& i) {
 	if (i.isEmpty()) return Interval<Number>::emptyInterval();
 	if (i.isUnbounded()) return Interval<Number>(Number(-1), Number(1));
 	// extrema may be attained inside of the interval
-	return Interval<Number>(order_bounds(boost::numeric::sin(i.rContent())), BoundType::WEAK, BoundType::WEAK);
+	return elementary_image(i, boost::numeric::sin(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -28,7 +28,7 @@ Interval<Number> cos(const Interval<Number>& i) {
 	if (i.isEmpty()) return Interval<Number>::emptyInterval();
 	if (i.isUnbounded()) return Interval<Number>(Number(-1), Number(1));
 	// extrema may be attained inside of the interval
-	return Interval<Number>(order_bounds(boost::numeric::cos(i.rContent())), BoundType::WEAK, BoundType::WEAK);
+	return elementary_image(i, boost::numeric::cos(i.rContent()), BoundType::WEAK, BoundType::WEAK);
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -41,7 +41,7 @@ template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tan(const Interval<Number>& i) {
 	assert(i.isConsistent());
 	if (i.isUnbounded()) return Interval<Number>::unboundedInterval();
-	return Interval<Number>(order_bounds(boost::numeric::tan(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::tan(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -53,7 +53,7 @@ void tan_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> asin(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::asin(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::asin(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -65,7 +65,7 @@ void asin_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acos(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::acos(i.rContent())), i.upperBoundType(), i.lowerBoundType());
+	return elementary_image(i, boost::numeric::acos(i.rContent()), i.upperBoundType(), i.lowerBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -77,7 +77,7 @@ void acos_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> atan(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::atan(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::atan(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -89,7 +89,7 @@ void atan_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> sinh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::sinh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::sinh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -103,7 +103,7 @@ Interval<Number> cosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
 	// the hyperbolic cosine is symmetric
 	Interval<Number> a = i.abs();
-	return Interval<Number>(order_bounds(boost::numeric::cosh(a.rContent())), a.lowerBoundType(), a.upperBoundType());
+	return elementary_image(i, boost::numeric::cosh(a.rContent()), a.lowerBoundType(), a.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -115,7 +115,7 @@ void cosh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> tanh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::tanh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::tanh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -127,7 +127,7 @@ void tanh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> asinh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::asinh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::asinh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -140,7 +140,7 @@ template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> acosh(const Interval<Number>& i) {
 	assert(i.isConsistent());
 	if (i.isEmpty()) return Interval<Number>::emptyInterval();
-	return Interval<Number>(order_bounds(boost::numeric::acosh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::acosh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
@@ -152,7 +152,7 @@ void acosh_assign(Interval<Number>& i) {
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
 Interval<Number> atanh(const Interval<Number>& i) {
 	assert(i.isConsistent());
-	return Interval<Number>(order_bounds(boost::numeric::atanh(i.rContent())), i.lowerBoundType(), i.upperBoundType());
+	return elementary_image(i, boost::numeric::atanh(i.rContent()), i.lowerBoundType(), i.upperBoundType());
 }
 
 template<typename Number, EnableIf<std::is_floating_point<Number>> = dummy>
-- 
2.43.0


From 690f0b230388b4de104ffb74c21df4fa44e60cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:37 +0000
Subject: [PATCH 059/141] fix: restore the rounding mode after computing roots
 of intervals

---
 src/carl/interval/Interval.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index f0d31aa..c986067 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -806,6 +806,8 @@ template<typename Num, EnableIf<std::is_floating_point<Num>>>
 Interval<Number> Interval<Number>::root(int deg) const
 	{
 		assert(this->isConsistent());
+		// boost::numeric::nth_root does not restore the rounding mode, this does.
+		typename BoostIntervalPolicies::rounding rnd;
         if( deg % 2 == 0 )
         {
             if( mUpperBoundType != BoundType::INFTY &&  mContent.upper() < carl::constant_zero<Number>().get() )
-- 
2.43.0


From 1d71a5cb4742512333d0957b071e029cc6692ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:34 +0000
Subject: [PATCH 060/141] fix: keep the weak bound zero of interval reciprocals

---
 src/carl/interval/Interval.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index c986067..42d1256 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -770,7 +770,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
         {
             if( mLowerBoundType == BoundType::INFTY && mContent.upper() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>( (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.upper() )).lower(), mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::STRICT );
+                a = Interval<Number>( (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.upper() )).lower(), mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
             }
             else if( mLowerBoundType == BoundType::INFTY && mContent.upper() == carl::constant_zero<Number>().get() )
             {
@@ -778,7 +778,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::STRICT, (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.lower() )).upper(), mLowerBoundType );
+                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.lower() )).upper(), mLowerBoundType );
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() == carl::constant_zero<Number>().get() )
             {
-- 
2.43.0


From f9f91920f800f56a428386c676081d554815924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:34 +0000
Subject: [PATCH 061/141] fix: set operations on empty, unbounded and identical
 intervals

---
 src/carl/interval/set_theory.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4531a3b..c6fcfbc 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -16,6 +16,11 @@ template<typename Number>
 bool set_complement(const Interval<Number>& interval, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(interval.isConsistent());
 
+	if (interval.isEmpty()) {
+		resA = Interval<Number>::unboundedInterval();
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
 	if (interval.lowerBoundType() == BoundType::INFTY) {
 		if (interval.upperBoundType() == BoundType::INFTY) {
 			resA = Interval<Number>::emptyInterval();
@@ -52,7 +57,7 @@ template<typename Number>
 bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
-	if (rhs.isEmpty()) {
+	if (lhs.isEmpty() || rhs.isEmpty()) {
 		resA = lhs;
 		resB = Interval<Number>::emptyInterval();
 		return false;
@@ -70,14 +75,15 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 	if (lhs.lowerBound() < rhs.lowerBound()) {
 		if (lhs.upperBound() < rhs.upperBound()) {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
-			resB = Interval<Number>(rhs.upperBound(), lhs.upperBound());
+			resB = rhs.upperBound() < lhs.upperBound() ? Interval<Number>(rhs.upperBound(), lhs.upperBound()) : Interval<Number>::emptyInterval();
 			return !resB.isEmpty();
 		}
 	} else {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>::emptyInterval();
 			resB = Interval<Number>::emptyInterval();
 			return false;
@@ -116,6 +122,7 @@ Interval<Number> set_intersection(const Interval<Number>& lhs, const Interval<Nu
 
 template<typename Number>
 bool set_have_intersection(const Interval<Number>& lhs, const Interval<Number>& rhs) {
+	if (lhs.isEmpty() || rhs.isEmpty()) return false;
 	if (lhs.lowerBound() <= rhs.lowerBound() && rhs.lowerBound() <= lhs.upperBound()) return true;
 	if (rhs.lowerBound() <= lhs.lowerBound() && lhs.lowerBound() <= rhs.upperBound()) return true;
 	return false;
@@ -164,12 +171,11 @@ bool set_symmetric_difference(const Interval<Number>& lhs, const Interval<Number
 
 	auto intersection = set_intersection(lhs, rhs);
 	if (intersection.isEmpty()) {
-		resA = lhs;
-		resB = rhs;
-		return true;
+		return set_union(lhs, rhs, resA, resB);
 	} else {
 		Interval<Number> tmp;
-		bool res = set_union(lhs, rhs, tmp, tmp);
+		Interval<Number> dummy;
+		bool res = set_union(lhs, rhs, tmp, dummy);
 		assert(!res);
 		return set_difference(tmp, intersection, resA, resB);
 	}
@@ -187,6 +193,11 @@ template<typename Number>
 bool set_union(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
+	if (lhs.isEmpty() || rhs.isEmpty()) {
+		resA = lhs.isEmpty() ? rhs : lhs;
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
 	if (carl::bounds_connect(lhs.upperBound(), rhs.lowerBound())) {
 		resA = Interval<Number>(lhs.lowerBound(), rhs.upperBound());
 		resB = Interval<Number>::emptyInterval();
-- 
2.43.0


From 798ebc664f575e95c91ee7f14740ffddf121ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:02 +0000
Subject: [PATCH 062/141] fix: changing bounds of an interval keeps its
 representation canonical

---
 src/carl/interval/Interval.h | 46 +++++-------------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index f4467ff..7c2f1f2 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -917,7 +917,7 @@ namespace carl
          */
         inline void setLower(const Number& n)
         {
-            this->set(n, mContent.upper());
+            *this = Interval<Number>(n, mLowerBoundType, mContent.upper(), mUpperBoundType);
         }
 
         /**
@@ -926,7 +926,7 @@ namespace carl
          */
         inline void setUpper(const Number& n)
         {
-            this->set(mContent.lower(), n);
+            *this = Interval<Number>(mContent.lower(), mLowerBoundType, n, mUpperBoundType);
         }
 
         /**
@@ -935,20 +935,7 @@ namespace carl
          */
         inline void setLowerBound(const Number& n, BoundType b)
         {
-			/// TODO: Fix this.
-        	if(b == BoundType::INFTY) {
-				this->set(mContent.upper(), mContent.upper());
-        		mLowerBoundType = b;
-        	} else {
-        		if(mUpperBoundType == BoundType::INFTY){
-        			this->set(n, n);
-        			mLowerBoundType = b;
-        			mUpperBoundType = BoundType::INFTY;
-	        	} else {
-	        		this->set(n, mContent.upper());
-	        		mLowerBoundType = b;
-	        	}
-        	}
+            *this = Interval<Number>(n, b, mContent.upper(), mUpperBoundType);
         }
 
         /**
@@ -957,20 +944,7 @@ namespace carl
          */
         inline void setUpperBound(const Number& n, BoundType b)
         {
-			/// TODO: Fix this.
-            if(b == BoundType::INFTY) {
-				this->set(mContent.lower(), mContent.lower());
-        		mUpperBoundType = b;
-        	} else {
-        		if(mLowerBoundType == BoundType::INFTY){
-        			this->set(n, n);
-        			mUpperBoundType = b;
-        			mLowerBoundType = BoundType::INFTY;
-	        	} else {
-	        		this->set(mContent.lower(), n);
-	        		mUpperBoundType = b;
-	        	}
-        	}
+            *this = Interval<Number>(mContent.lower(), mLowerBoundType, n, b);
         }
 
         /**
@@ -979,11 +953,7 @@ namespace carl
          */
         inline void setLowerBoundType(BoundType b)
         {
-			mLowerBoundType = b;
-            if (b == BoundType::INFTY) {
-				//setLower(carl::constant_zero<Number>().get());
-				setLower(upper());
-            }
+            *this = Interval<Number>(mContent.lower(), b, mContent.upper(), mUpperBoundType);
         }
 
         /**
@@ -992,11 +962,7 @@ namespace carl
          */
         inline void setUpperBoundType(BoundType b)
         {
-			mUpperBoundType = b;
-            if (b == BoundType::INFTY) {
-				//setUpper(carl::constant_zero<Number>().get());
-				setUpper(lower());
-            }
+            *this = Interval<Number>(mContent.lower(), mLowerBoundType, mContent.upper(), b);
         }
 
         /**
-- 
2.43.0


From e2ff9ec7b333c683584858b86949877e9d36bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:02 +0000
Subject: [PATCH 063/141] fix: splitting point and half-bounded intervals
 covers the interval

---
 src/carl/interval/Interval.tpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 42d1256..b56a561 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -256,10 +256,15 @@ template<typename Number>
     std::pair<Interval<Number>, Interval<Number>> Interval<Number>::split() const
     {
 	std::pair<BoostInterval, BoostInterval> bisection = boost::numeric::bisect(mContent);
-	if( this->isEmpty() || this->isPointInterval() )
+	if( this->isEmpty() )
 	{
 	    return std::pair<Interval<Number>, Interval<Number> >(Interval<Number>::emptyInterval(), Interval<Number>::emptyInterval());
 	}
+	if( this->isHalfBounded() )
+	{
+	    Number c = carl::center(*this);
+	    return std::pair<Interval<Number>, Interval<Number> >(Interval(mContent.lower(), mLowerBoundType, c, BoundType::STRICT), Interval(c, BoundType::WEAK, mContent.upper(), mUpperBoundType));
+	}
 	return std::pair<Interval<Number>, Interval<Number> >(Interval(bisection.first, mLowerBoundType, BoundType::STRICT), Interval(bisection.second, BoundType::WEAK, mUpperBoundType));
     }
 
@@ -279,22 +284,14 @@ template<typename Number>
 		Number diameter = this->diameter();
         diameter /= Number(n);
 
-        Interval<Number> tmp;
-        tmp.set(mContent.lower(), mContent.lower()+diameter);
-        tmp.setLowerBoundType(mLowerBoundType);
-        tmp.setUpperBoundType(BoundType::STRICT);
-        result.push_back(tmp);
-
-        tmp.setLowerBoundType(BoundType::WEAK);
-        for( unsigned i = 1; i < (n-1); ++i )
+        Number lower = mContent.lower();
+        for( unsigned i = 0; i < n; ++i )
         {
-        	tmp += diameter;
-            result.push_back(tmp);
+            Number upper = lower + diameter;
+            if( i == n-1 || upper > mContent.upper() ) upper = mContent.upper();
+            result.emplace_back(lower, i == 0 ? mLowerBoundType : BoundType::WEAK, upper, i == n-1 ? mUpperBoundType : BoundType::STRICT);
+            lower = upper;
         }
-
-        tmp += diameter;
-        tmp.setUpperBoundType(mUpperBoundType);
-        result.push_back(tmp);
 		return result;
 	}
 
-- 
2.43.0


From 8df38109f51f779ce7b0e55eb2443946eb04479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:02 +0000
Subject: [PATCH 064/141] fix: Stern-Brocot samples respect strict and excluded
 bounds

---
 src/carl/interval/sampling.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/sampling.h b/src/carl/interval/sampling.h
index 50014a6..fc3501b 100644
--- a/src/carl/interval/sampling.h
+++ b/src/carl/interval/sampling.h
@@ -48,6 +48,7 @@ Number sample(const Interval<Number>& i, bool includingBounds = true) {
 template<typename Number>
 Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = true) {
 	assert(i.isConsistent() && !i.isEmpty());
+	assert(includingBounds || !i.isPointInterval());
 
 	using Int = typename carl::IntegralType<Number>::type;
 	Int leftnum = Int(carl::floor(center(i)));
@@ -55,17 +56,17 @@ Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = tru
 	Int rightnum = carl::constant_one<Int>::get();
 	Int rightden = carl::constant_zero<Int>::get();
 	Number cur = Number(leftnum) / Number(leftden);
-	if (i.contains(cur)) {
+	if (i.contains(cur) && (includingBounds || i.lowerBoundType() == BoundType::INFTY || i.lower() < cur)) {
 		return cur;
 	}
 	while (true) {
 		Int curnum = leftnum + rightnum;
 		Int curden = leftden + rightden;
 		cur = Number(curnum) / Number(curden);
-		if ((cur < i.lower()) || (!includingBounds && cur == i.lower())) {
+		if ((cur < i.lower()) || ((!includingBounds || i.lowerBoundType() == BoundType::STRICT) && cur == i.lower())) {
 			leftnum = curnum;
 			leftden = curden;
-		} else if ((cur > i.upper()) || (!includingBounds && cur == i.upper())) {
+		} else if ((cur > i.upper()) || ((!includingBounds || i.upperBoundType() == BoundType::STRICT) && cur == i.upper())) {
 			rightnum = curnum;
 			rightden = curden;
 		} else {
-- 
2.43.0


From 8d5734e04d39e07d247de322efb5cf7c36c5d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:56 +0000
Subject: [PATCH 065/141] fix: merging the candidate intervals of a contractor
 keeps all of them

---
 src/carl/interval/Contractor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/Contractor.h b/src/carl/interval/Contractor.h
index 0098a66..712db63 100644
--- a/src/carl/interval/Contractor.h
+++ b/src/carl/interval/Contractor.h
@@ -71,7 +71,7 @@ private:
 		CARL_LOG_DEBUG("carl.contractor", "From " << intervals);
 		std::sort(intervals.begin(), intervals.end(),
 			[](const auto& lhs, const auto& rhs) {
-				return lhs.lower() < rhs.lower();
+				return lhs.lowerBound() < rhs.lowerBound();
 			}
 		);
 		std::size_t last = 0;
@@ -83,6 +83,7 @@ private:
 				assert(!res);
 			} else {
 				++last;
+				intervals[last] = intervals[i];
 			}
 		}
 		intervals.resize(last + 1);
-- 
2.43.0


From 329b47a6a637d6a20e87a6bf9013ad71da8f0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:56 +0000
Subject: [PATCH 066/141] fix: contraction with more than two candidate
 intervals stays within the box

---
 src/carl/interval/Contraction.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/carl/interval/Contraction.h b/src/carl/interval/Contraction.h
index 0cdc659..3dad308 100644
--- a/src/carl/interval/Contraction.h
+++ b/src/carl/interval/Contraction.h
@@ -439,19 +439,19 @@ namespace carl {
                 }
                 else
                 {
-                    std::sort( resultPropagation.begin(), resultPropagation.end(), 
+                    std::sort( resultingIntervals.begin(), resultingIntervals.end(), 
                               [](const Interval<double>& i,const Interval<double> j) 
                               { if(i<j){return true;} else { assert(j<i); return false; } }
                              );
-                    auto intervalBeforeBiggestGap = resultPropagation.begin();
-                    auto iter = resultPropagation.begin();
+                    auto intervalBeforeBiggestGap = resultingIntervals.begin();
+                    auto iter = resultingIntervals.begin();
                     ++iter;
                     double bestDistance = intervalBeforeBiggestGap->distance(*iter);
-                    for( ; iter != resultPropagation.end(); ++iter )
+                    for( ; iter != resultingIntervals.end(); ++iter )
                     {
                         auto jter = iter;
                         ++jter;
-                        if( jter == resultPropagation.end() )
+                        if( jter == resultingIntervals.end() )
                         {
                             break;
                         }
@@ -466,13 +466,13 @@ namespace carl {
                         }
                     }
                     resA = *intervalBeforeBiggestGap;
-                    for( iter = resultPropagation.begin(); iter != intervalBeforeBiggestGap; ++iter )
+                    for( iter = resultingIntervals.begin(); iter != intervalBeforeBiggestGap; ++iter )
                     {
                         resA = resA.convexHull( *iter );
                     }
                     ++iter;
                     resB = *iter;
-                    for( ; iter != resultPropagation.end(); ++iter )
+                    for( ; iter != resultingIntervals.end(); ++iter )
                     {
                         resB = resB.convexHull( *iter );
                     }
-- 
2.43.0


From 650c9acb8cd174ea838744d047d23c28a5617193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:19 +0000
Subject: [PATCH 067/141] fix: compact tree computed pointers before its array

---
 src/carl/util/CompactTree.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/carl/util/CompactTree.h b/src/carl/util/CompactTree.h
index 6e3a9c2..114da76 100644
--- a/src/carl/util/CompactTree.h
+++ b/src/carl/util/CompactTree.h
@@ -14,8 +14,6 @@
 #include <cassert>
 #include <ostream>
 
-CLANG_WARNING_DISABLE("-Wnull-pointer-arithmetic")
-
 namespace carl
 {
     /** This class packs a complete binary tree in a vector.
@@ -48,7 +46,7 @@ namespace carl
             CompactTree( const CompactTree& tree, std::size_t minCapacity = 0 );
             ~CompactTree()
             {
-                delete[] (_array + 1);
+                delete[] _array;
             }
 
             Entry& operator []( Node n );
@@ -212,19 +210,19 @@ namespace carl
 
     template<class E, bool FI>
     CompactTree<E, FI>::CompactTree( size_t initialCapacity ):
-        _array( static_cast<E*>(nullptr) - 1 ),
+        _array( nullptr ),
         _lastLeaf( 0 ),
         _capacityEnd( Node( 0 ).next( initialCapacity ))
     {
         if( initialCapacity > 0 ) {
-            _array = new E[initialCapacity]-1;
+            _array = new E[initialCapacity];
         }
         assert( isValid() );
     }
 
     template<class E, bool FI>
     CompactTree<E, FI>::CompactTree( const CompactTree& tree, size_t minCapacity ):
-        _array( static_cast<E*>(0) - 1 ),
+        _array( nullptr ),
         _lastLeaf( tree._lastLeaf )
     {
         if( tree.size() > minCapacity ) {
@@ -234,7 +232,7 @@ namespace carl
         if( minCapacity == 0 ) {
             return;
         }
-        _array = new E[minCapacity]-1;
+        _array = new E[minCapacity];
         for( Node i; i <= tree.lastLeaf(); ++i ) {
             (*this)[i] = tree[i];
         }
@@ -244,11 +242,11 @@ namespace carl
     E& CompactTree<E, FI>::operator []( Node n )
     {
         if( !FI ) {
-            return _array[n._index];
+            return _array[n._index - 1];
         }
         char* base    = reinterpret_cast<char*>(_array);
-        E*    element = reinterpret_cast<E*>(base + n._index);
-        assert( element == &(_array[n._index / sizeof(E)]) );
+        E*    element = reinterpret_cast<E*>(base + (n._index - sizeof(E)));
+        assert( element == &(_array[n._index / sizeof(E) - 1]) );
         return *element;
     }
 
@@ -357,13 +355,13 @@ namespace carl
         assert( !FI || (sizeof(E) & (sizeof(E) - 1)) == 0 );
         if( capacity() == 0 )
         {
-            assert( _array == static_cast<E*>(nullptr) - 1 );
+            assert( _array == nullptr );
             assert( _capacityEnd == Node( 0 ));
             assert( _lastLeaf == Node( 0 ));
         }
         else
         {
-            assert( _array != static_cast<E*>(nullptr) - 1 );
+            assert( _array != nullptr );
             assert( _capacityEnd > Node( 0 ));
             assert( _lastLeaf <= _capacityEnd );
         }
@@ -389,4 +387,3 @@ namespace carl
     }
 }
 
-CLANG_WARNING_RESET
-- 
2.43.0


From b5d09f36bc6d18d6d68ced41887a93df0aab57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:07 +0000
Subject: [PATCH 068/141] fix: adding the zero polynomial does not change a
 Groebner basis

---
 src/carl/groebner/GBProcedure.h                | 2 +-
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/groebner/GBProcedure.h b/src/carl/groebner/GBProcedure.h
index 2f2e50d..77a5581 100644
--- a/src/carl/groebner/GBProcedure.h
+++ b/src/carl/groebner/GBProcedure.h
@@ -220,7 +220,7 @@ public:
 		//We only schedule "new" input for reduction
 		for(typename std::list<Polynomial>::const_iterator it = mInputScheduled.begin(); it != mInputScheduled.end(); ++it)
 		{
-			toBeReduced.push_back(*it);
+			if(!isZero(*it)) toBeReduced.push_back(*it);
 		}
 		std::sort(toBeReduced.begin(), toBeReduced.end(), Polynomial::compareByLeadingTerm);
 
diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index b7daad0..c31804a 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -48,6 +48,7 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 	bool foundGB = false;
 	for(const Polynomial& newPol : scheduledForAdding)
 	{
+		if(isZero(newPol)) continue;
 		if(addToGb(newPol))
 		{
 			CARL_LOG_INFO("carl.gb.buchberger", "Added a constant polynomial.");
-- 
2.43.0


From 01049c73fc2fcba9a4848cbf76ebf4f1715fa92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:07 +0000
Subject: [PATCH 069/141] fix: Groebner basis elements are normalized

---
 src/carl/groebner/GBProcedure.h                | 2 +-
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/groebner/GBProcedure.h b/src/carl/groebner/GBProcedure.h
index 77a5581..9802bda 100644
--- a/src/carl/groebner/GBProcedure.h
+++ b/src/carl/groebner/GBProcedure.h
@@ -292,7 +292,7 @@ private:
 			Polynomial res = reduct.fullReduce();
             if(!isZero(res))
             {
-                res.normalize();
+                res = res.normalize();
                 CARL_LOG_DEBUG("carl.gb.gbproc", "GB Reduction, reduced " << mGb->getGenerator(*index) << " to " << res);
                 reduced->addGenerator(res);
             }
diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index c31804a..53a8176 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -49,7 +49,7 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 	for(const Polynomial& newPol : scheduledForAdding)
 	{
 		if(isZero(newPol)) continue;
-		if(addToGb(newPol))
+		if(addToGb(newPol.normalize()))
 		{
 			CARL_LOG_INFO("carl.gb.buchberger", "Added a constant polynomial.");
 			foundGB = true;
-- 
2.43.0


From 386677b8bc113e4154123132c2574dea88ddff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:07 +0000
Subject: [PATCH 070/141] fix: extending a constant Groebner basis

---
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index 53a8176..f00e3ee 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -40,6 +40,8 @@ template<class Polynomial, template<typename> class AddingPolicy>
 void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>& scheduledForAdding)
 {
 	CARL_LOG_INFO("carl.gb.buchberger", "Calculate gb");
+	// Nothing can be added to the whole ring.
+	if(pGb->isConstant()) return;
 	for(unsigned i = 0; i < pGb->getGenerators().size(); ++i)
 	{
 		mGbElementsIndices.push_back(i);
@@ -99,6 +101,8 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 			}
 		}
 	}
+	// If a constant was found, there may be pairs left that refer to removed generators.
+	while(!pCritPairs->empty()) pCritPairs->pop();
 	mGbElementsIndices.clear();
 }
 
-- 
2.43.0


From e7b01851ce3a6ba231a4d67913182a358d442483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:02 +0000
Subject: [PATCH 071/141] fix: removing eliminated generators of an ideal
 updates its divisor lookup

---
 src/carl/groebner/Ideal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/Ideal.h b/src/carl/groebner/Ideal.h
index 1ead321..8d96bad 100644
--- a/src/carl/groebner/Ideal.h
+++ b/src/carl/groebner/Ideal.h
@@ -139,7 +139,7 @@ public:
         }
         tempGen.swap(mGenerators);
         mEliminated.clear();
-
+        mDivisorLookup.reset();
     }
 	
 	void clear()
-- 
2.43.0


From da2e9a4005e3bd480ae209023ad07d9452178827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:20 +0000
Subject: [PATCH 072/141] fix: sign variations of an empty or all-zero sequence

---
 src/carl/core/Sign.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/Sign.h b/src/carl/core/Sign.h
index 9ec9a2f..6265505 100644
--- a/src/carl/core/Sign.h
+++ b/src/carl/core/Sign.h
@@ -67,8 +67,9 @@ Sign sgn(const Number& n) {
  */
 template<typename InputIterator>
 std::size_t sign_variations(InputIterator begin, InputIterator end) {
-	while ((*begin == Sign::ZERO) && (begin != end))
+	while ((begin != end) && (*begin == Sign::ZERO))
 		++begin;
+	if (begin == end) return 0;
 
 	std::size_t changes = 0;
 	for (Sign last = *begin; begin != end; ++begin) {
-- 
2.43.0


From 5b441db2d41d14a48741bd21d4b8cb832f81a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 073/141] fix: growing a Bitset keeps the default value of the
 new bits

---
 src/carl/util/Bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 8ea0fac..c67ddf5 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -92,7 +92,7 @@ namespace carl {
 		/// Resize mData to hold at least pos bits.
 		void ensureSize(std::size_t pos) {
 			if (pos >= mData.size()) {
-				mData.resize(pos+1);
+				mData.resize(pos+1, mDefault);
 			}
 		}
 	public:
-- 
2.43.0


From fb24aa2069eda0c997c5bb8b49002725e6b2c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 074/141] fix: assigning set operations on Bitset update the
 default value

---
 src/carl/util/Bitset.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index c67ddf5..73e2ac7 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -121,18 +121,21 @@ namespace carl {
 			assert(mDefault == rhs.mDefault);
 			alignSize(*this, rhs);
 			mData -= rhs.mData;
+			mDefault = mDefault && !rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise and with rhs.
 		Bitset& operator&=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData &= rhs.mData;
+			mDefault = mDefault && rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise or with rhs.
 		Bitset& operator|=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData |= rhs.mData;
+			mDefault = mDefault || rhs.mDefault;
 			return *this;
 		}
 		
-- 
2.43.0


From 94ea6c841438ef2a1a3c37ecdd5947b621711020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 075/141] fix: order and hash of Bitset do not depend on the
 stored size

---
 src/carl/util/Bitset.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 73e2ac7..ab4bbdc 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "boost_util.h"
+#include "hash.h"
 
 #include <boost/dynamic_bitset.hpp>
 
@@ -232,12 +233,10 @@ namespace carl {
 		}
 		/// Compares lhs and rhs according to some order.
 		friend bool operator<(const Bitset& lhs, const Bitset& rhs) {
-			if (lhs.size() < rhs.size()) {
-				return true;
-			}
-			if (lhs.size() > rhs.size()) {
-				return false;
+			if (lhs.mDefault != rhs.mDefault) {
+				return rhs.mDefault;
 			}
+			alignSize(lhs, rhs);
 			return lhs.mData < rhs.mData;
 		}
 		
@@ -268,7 +267,13 @@ namespace std {
 template<>
 struct hash<carl::Bitset> {
 	std::size_t operator()(const carl::Bitset& bs) const {
-		return std::hash<carl::Bitset::BaseType>()(bs.mData);
+		// Only consider bits different from the default, as equal bitsets may differ in size.
+		std::size_t seed = std::hash<bool>()(bs.mDefault);
+		carl::Bitset::BaseType bits = bs.mDefault ? ~bs.mData : bs.mData;
+		for (auto pos = bits.find_first(); pos != carl::Bitset::npos; pos = bits.find_next(pos)) {
+			carl::hash_add(seed, pos);
+		}
+		return seed;
 	}
 };
 
-- 
2.43.0


From 89b36422493d693753e971229ddc311df0cdd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 076/141] fix: BitVector::subsetOf terminates if the subset
 stores more words

---
 src/carl/util/BitVector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/BitVector.cpp b/src/carl/util/BitVector.cpp
index 4c1e8cf..038107c 100644
--- a/src/carl/util/BitVector.cpp
+++ b/src/carl/util/BitVector.cpp
@@ -71,6 +71,7 @@ bool BitVector::subsetOf( const BitVector& superset)
     while( sub != mBits.end())
     {
         if( *sub != 0) return false;
+        ++sub;
     }
     return true;
 }
-- 
2.43.0


From e43ec2d431b44acf722dbc865cd10d30149f0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 077/141] fix: BitVectors holding the same bits compare equal

---
 src/carl/util/BitVector.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/BitVector.cpp b/src/carl/util/BitVector.cpp
index 038107c..b1e51cf 100644
--- a/src/carl/util/BitVector.cpp
+++ b/src/carl/util/BitVector.cpp
@@ -1,5 +1,7 @@
 #include "BitVector.h"
 
+#include <algorithm>
+
 namespace carl
 {
 
@@ -36,7 +38,11 @@ BitVector operator|(const BitVector& lhs, const BitVector& rhs)
 
 bool operator ==(const BitVector& lhs, const BitVector& rhs)
 {
-    return(lhs.mBits == rhs.mBits);
+    // Trailing zeros that are stored explicitly do not matter.
+    const auto& shorter = lhs.mBits.size() <= rhs.mBits.size() ? lhs.mBits : rhs.mBits;
+    const auto& longer = lhs.mBits.size() <= rhs.mBits.size() ? rhs.mBits : lhs.mBits;
+    auto it = longer.begin() + static_cast<std::ptrdiff_t>(shorter.size());
+    return std::equal(shorter.begin(), shorter.end(), longer.begin()) && std::all_of(it, longer.end(), [](unsigned b) { return b == 0; });
 }
 
 bool operator ==(const BitVector::forward_iterator& fi1, const BitVector::forward_iterator& fi2)
-- 
2.43.0


From bb1a1925b8d011f92a2d34190e1fa18368f8126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 078/141] fix: BitVector::reserve does not drop bits

---
 src/carl/util/BitVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/BitVector.h b/src/carl/util/BitVector.h
index 03294d6..5dec043 100644
--- a/src/carl/util/BitVector.h
+++ b/src/carl/util/BitVector.h
@@ -34,7 +34,7 @@ namespace carl
 		}
 		
 		void reserve(size_t capacity) {
-			mBits.resize(capacity);
+			if (capacity > mBits.size()) mBits.resize(capacity);
 		}
 		
         bool empty() const
-- 
2.43.0


From 0742d3bc73a467c9e4f7c96837311beeb5f651a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 079/141] fix: copying the entries of a heap terminates and
 returns them

---
 src/carl/util/CompactTree.h | 2 ++
 src/carl/util/Heap.h        | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/CompactTree.h b/src/carl/util/CompactTree.h
index 114da76..5145924 100644
--- a/src/carl/util/CompactTree.h
+++ b/src/carl/util/CompactTree.h
@@ -13,6 +13,7 @@
 
 #include <cassert>
 #include <ostream>
+#include <vector>
 
 namespace carl
 {
@@ -177,6 +178,7 @@ namespace carl
                 while( it <= _lastLeaf )
                 {
                     ret.push_back( (*this)[it] );
+                    ++it;
                 }
                 return ret;
             }
diff --git a/src/carl/util/Heap.h b/src/carl/util/Heap.h
index 50fdc24..8179b9e 100644
--- a/src/carl/util/Heap.h
+++ b/src/carl/util/Heap.h
@@ -91,7 +91,7 @@ namespace carl
 
             std::vector<Entry> getCopy() const
             {
-                _tree.getCopy();
+                return _tree.getCopy();
             }
 
             void print( std::ostream& out = std::cout ) const;
-- 
2.43.0


From 9f23def404b0d73ef47a0c0ded8b821f446ecdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 080/141] fix: postfix operators of tree iterators return the
 previous position

---
 src/carl/util/carlTree.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index dd16e4b..ed76770 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -131,11 +131,15 @@ typename std::enable_if<reverse,I>::type& operator++(BaseIterator<T,I,reverse>&
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type operator++(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->next();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->next();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<reverse,I>::type operator++(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->previous();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->previous();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type& operator--(BaseIterator<T,I,reverse>& it) {
@@ -147,11 +151,15 @@ typename std::enable_if<reverse,I>::type& operator--(BaseIterator<T,I,reverse>&
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<!reverse,I>::type operator--(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->previous();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->previous();
+	return res;
 }
 template<typename T, typename I, bool reverse>
 typename std::enable_if<reverse,I>::type operator--(BaseIterator<T,I,reverse>& it, int) {
-	return static_cast<I*>(&it)->next();
+	I res(*static_cast<I*>(&it));
+	static_cast<I*>(&it)->next();
+	return res;
 }
 
 
-- 
2.43.0


From 9e56cbb82bf528a8e2e062625740a9a2aa094e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 081/141] fix: rbegin and rend of tree return reverse iterators

---
 src/carl/util/carlTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index ed76770..fa93ab6 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -607,10 +607,10 @@ public:
 	iterator end() const {
 		return end_preorder();
 	}
-	iterator rbegin() const {
+	PreorderIterator<true> rbegin() const {
 		return rbegin_preorder();
 	}
-	iterator rend() const {
+	PreorderIterator<true> rend() const {
 		return rend_preorder();
 	}
 
-- 
2.43.0


From fd651bdece0bd3ddffc8fa6cb9259847e7592e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 082/141] fix: stepping depth iterators against their direction

---
 src/carl/util/carlTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index fa93ab6..23029f2 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -401,7 +401,7 @@ struct DepthIterator:
 				this->current = this->curnode().parent;
 				if (this->current == MAXINT) return *this;
 			}
-			PreorderIterator<T,reverse> it(this->mTree, this->curnode().nextSibling);
+			PreorderIterator<T,false> it(this->mTree, this->curnode().nextSibling);
 			for (; it.current != MAXINT; ++it) {
 				if (it.depth() == target) break;
 			}
@@ -420,7 +420,7 @@ struct DepthIterator:
 				this->current = this->curnode().parent;
 				if (this->current == MAXINT) return *this;
 			}
-			PostorderIterator<T,reverse> it(this->mTree, this->curnode().previousSibling);
+			PostorderIterator<T,true> it(this->mTree, this->curnode().previousSibling);
 			for (; it.current != MAXINT; ++it) {
 				if (it.depth() == target) break;
 			}
-- 
2.43.0


From 26049f4fbbee0cc56169a1b99cc2de7f2b668ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 083/141] fix: traversals of an empty tree are empty

---
 src/carl/util/carlTree.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index 23029f2..0a6b932 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -615,12 +615,14 @@ public:
 	}
 
 	PreorderIterator<false> begin_preorder() const {
+		if (nodes.empty()) return end_preorder();
 		return PreorderIterator<false>(this, 0);
 	}
 	PreorderIterator<false> end_preorder() const {
 		return PreorderIterator<false>(this);
 	}
 	PreorderIterator<true> rbegin_preorder() const {
+		if (nodes.empty()) return rend_preorder();
 		std::size_t cur = 0;
 		while (nodes[cur].lastChild != MAXINT) cur = nodes[cur].lastChild;
 		return PreorderIterator<true>(this, cur);
@@ -629,6 +631,7 @@ public:
 		return PreorderIterator<true>(this);
 	}
 	PostorderIterator<false> begin_postorder() const {
+		if (nodes.empty()) return end_postorder();
 		std::size_t cur = 0;
 		while (nodes[cur].firstChild != MAXINT) cur = nodes[cur].firstChild;
 		return PostorderIterator<false>(this, cur);
@@ -637,12 +640,14 @@ public:
 		return PostorderIterator<false>(this);
 	}
 	PostorderIterator<true> rbegin_postorder() const {
+		if (nodes.empty()) return rend_postorder();
 		return PostorderIterator<true>(this, 0);
 	}
 	PostorderIterator<true> rend_postorder() const {
 		return PostorderIterator<true>(this);
 	}
 	LeafIterator<false> begin_leaf() const {
+		if (nodes.empty()) return end_leaf();
 		std::size_t cur = 0;
 		while (nodes[cur].firstChild != MAXINT) cur = nodes[cur].firstChild;
 		return LeafIterator<false>(this, cur);
@@ -651,6 +656,7 @@ public:
 		return LeafIterator<false>(this);
 	}
 	LeafIterator<true> rbegin_leaf() const {
+		if (nodes.empty()) return rend_leaf();
 		std::size_t cur = 0;
 		while (nodes[cur].lastChild != MAXINT) cur = nodes[cur].lastChild;
 		return LeafIterator<true>(this, cur);
-- 
2.43.0


From 46e627cf9c6a59fe21c1098ca1362a215b02c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 084/141] fix: tree::erase returns the next remaining position

---
 src/carl/util/carlTree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/carlTree.h b/src/carl/util/carlTree.h
index 0a6b932..08a4ef6 100644
--- a/src/carl/util/carlTree.h
+++ b/src/carl/util/carlTree.h
@@ -888,9 +888,11 @@ public:
 		std::size_t id = position.current;
 		if (id == 0) {
 			clear();
-			++position;
+			position.current = MAXINT;
 			return position;
 		}
+		// The next position must not be within the erased subtree.
+		eraseChildren(id);
 		++position;
 		if (nodes[id].nextSibling != MAXINT) {
 			nodes[nodes[id].nextSibling].previousSibling = nodes[id].previousSibling;
-- 
2.43.0


From 742ca0d9a14f93e598ac04e306a3bb7cc552f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:49 +0000
Subject: [PATCH 085/141] fix: updating a cache entry does not duplicate its
 references

---
 src/carl/util/Cache.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/util/Cache.tpp b/src/carl/util/Cache.tpp
index 939c03f..e5f0f5d 100644
--- a/src/carl/util/Cache.tpp
+++ b/src/carl/util/Cache.tpp
@@ -73,7 +73,6 @@ namespace carl
                 Info& info = (*retB.first)->second;
                 assert( info.refStoragePositions.size() > 0);
                 assert( info.refStoragePositions.front() > 0 );
-                info.refStoragePositions.insert( info.refStoragePositions.end(), element->second.refStoragePositions.begin(), element->second.refStoragePositions.end() );
                 return std::make_pair( info.refStoragePositions.front(), false );
             }
             else
-- 
2.43.0


From e39fb25f4c294a3a80159623155b4f96da168b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:36 +0000
Subject: [PATCH 086/141] fix: rehashing a cache entry that became equal to
 another one

---
 src/carl/util/Cache.tpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/Cache.tpp b/src/carl/util/Cache.tpp
index e5f0f5d..c9c43e2 100644
--- a/src/carl/util/Cache.tpp
+++ b/src/carl/util/Cache.tpp
@@ -9,6 +9,8 @@
 
 #include "Cache.h"
 
+#include <algorithm>
+
 
 namespace carl
 {   
@@ -147,7 +149,11 @@ namespace carl
         assert( _refStoragePos < mCacheRefs.size() );
         TypeInfoPair<T,Info>* cacheRef = mCacheRefs[_refStoragePos];
         assert( cacheRef != nullptr );
-        mCache.erase( cacheRef );
+        // The entry may have become equal to another one, hence make sure to erase this very entry.
+        auto pos = mCache.find( cacheRef );
+        if( pos == mCache.end() || *pos != cacheRef )
+            pos = std::find( mCache.begin(), mCache.end(), cacheRef );
+        mCache.erase( pos );
         cacheRef->first->rehash();
         const Info& infoB = cacheRef->second;
         auto ret = mCache.insert( cacheRef );
-- 
2.43.0


From c77c61c6a88579a7aabe73bda1811fd576426c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:28 +0000
Subject: [PATCH 087/141] fix: trivial set cover of an instance without sets

---
 src/carl-covering/heuristics/trivial.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-covering/heuristics/trivial.cpp b/src/carl-covering/heuristics/trivial.cpp
index daa27cd..fd91cfc 100644
--- a/src/carl-covering/heuristics/trivial.cpp
+++ b/src/carl-covering/heuristics/trivial.cpp
@@ -7,7 +7,9 @@ namespace carl::covering::heuristic {
 /// Trivial heuristic: select all sets.
 Bitset trivial(SetCover& sc) {
 	Bitset result;
-	result.set_interval(0, sc.set_count() - 1);
+	if (sc.set_count() > 0) {
+		result.set_interval(0, sc.set_count() - 1);
+	}
 	return result;
 }
 
-- 
2.43.0


From c26e7f403d42952fd73bb36c732c812c2ac3e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:28 +0000
Subject: [PATCH 088/141] fix: weighted set cover selecting sets without
 uncovered elements

---
 src/carl-covering/SetCover.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-covering/SetCover.cpp b/src/carl-covering/SetCover.cpp
index e555ac5..32563b6 100644
--- a/src/carl-covering/SetCover.cpp
+++ b/src/carl-covering/SetCover.cpp
@@ -66,8 +66,10 @@ std::size_t SetCover::largest_set(const std::vector<double>& weights) const {
 	std::size_t largest_id = 0;
 	double largest_size = mSets[0].count() * weights[0];
 	for (std::size_t id = 1; id < mSets.size(); ++id) {
+		// Prefer active sets, a set without elements may otherwise win against non-positive weights.
+		if (mSets[id].none()) continue;
 		double size = mSets[id].count() * weights[id];
-		if (size > largest_size) {
+		if (mSets[largest_id].none() || size > largest_size) {
 			largest_id = id;
 			largest_size = size;
 		}
-- 
2.43.0


From 5de9ca575e38d37c2afb988df025db93e31c9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:40 +0000
Subject: [PATCH 089/141] fix: covering losing intervals added again for the
 same constraint

---
 src/carl/util/Covering.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Covering.h b/src/carl/util/Covering.h
index 4c41e23..c4923da 100644
--- a/src/carl/util/Covering.h
+++ b/src/carl/util/Covering.h
@@ -14,7 +14,7 @@ public:
 		mOkay.resize(intervals, true);
 	}
 	void add(const T& t, const carl::Bitset& b) {
-		mData.emplace(t, b);
+		mData[t] |= b;
 		mOkay -= b;
 	}
 	bool conflicts() const {
-- 
2.43.0


From d0d658f0b33e84e3b97ac0cbee7b356acaea5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:52 +0000
Subject: [PATCH 090/141] fix: reject durations and quantities that overflow

---
 src/carl-settings/settings_utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/carl-settings/settings_utils.cpp b/src/carl-settings/settings_utils.cpp
index be75833..26aa895 100644
--- a/src/carl-settings/settings_utils.cpp
+++ b/src/carl-settings/settings_utils.cpp
@@ -4,6 +4,8 @@
 #include <boost/program_options.hpp>
 #include <boost/spirit/include/qi.hpp>
 
+#include <limits>
+
 namespace carl::settings {
 
 // Adapted from https://stackoverflow.com/questions/45071699/
@@ -25,7 +27,9 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("m", std::chrono::minutes(1))
 		("h", std::chrono::hours(1))
 	;
-	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)
+		&& value <= std::numeric_limits<long>::max() / factor.count()
+		&& value >= std::numeric_limits<long>::min() / factor.count()) {
 		v = duration(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -55,7 +59,8 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("E", static_cast<std::size_t>(1) << 60U)
 		("Ei", static_cast<std::size_t>(1) << 60U)
 	;
-	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)
+		&& value <= std::numeric_limits<std::size_t>::max() / factor) {
 		v = binary_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -79,7 +84,8 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("P", 1000000000000000)
 		("E", 1000000000000000000)
 	;
-	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)
+		&& value <= std::numeric_limits<std::size_t>::max() / factor) {
 		v = metric_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
-- 
2.43.0


From f7db56a2fc1dace4bce7bd1e34d6fcc2e916c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:52 +0000
Subject: [PATCH 091/141] fix: printing of quantities above the signed range

---
 src/carl-settings/settings_utils.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/carl-settings/settings_utils.h b/src/carl-settings/settings_utils.h
index c4875ce..d5b65f6 100644
--- a/src/carl-settings/settings_utils.h
+++ b/src/carl-settings/settings_utils.h
@@ -3,6 +3,7 @@
 #include <array>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <utility>
 #include <vector>
@@ -103,6 +104,9 @@ inline std::ostream& operator<<(std::ostream& os, const binary_quantity& q) {
 		{"", 1024}, {"Ki", 1024}, {"Mi", 1024},
 		{"Gi", 1024}, {"Ti", 1024}, {"Pi", 1024}, {"Ei", 1},
 	}};
+	if (q.n() > static_cast<std::size_t>(std::numeric_limits<std::intmax_t>::max())) {
+		return os << q.exbi() << suffixes.back().first;
+	}
 	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
@@ -149,6 +153,9 @@ inline std::ostream& operator<<(std::ostream& os, const metric_quantity& q) {
 		{"", 1000}, {"K", 1000}, {"M", 1000},
 		{"G", 1000}, {"T", 1000}, {"P", 1000}, {"E", 1},
 	}};
+	if (q.n() > static_cast<std::size_t>(std::numeric_limits<std::intmax_t>::max())) {
+		return os << q.exa() << suffixes.back().first;
+	}
 	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
-- 
2.43.0


From 13daf32dc8b2568792b0d303b0002d7aef0a37c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:19 +0000
Subject: [PATCH 092/141] fix: run all settings finalizers

---
 src/carl-settings/SettingsParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl-settings/SettingsParser.cpp b/src/carl-settings/SettingsParser.cpp
index a44e8f4..cc7f94b 100644
--- a/src/carl-settings/SettingsParser.cpp
+++ b/src/carl-settings/SettingsParser.cpp
@@ -87,9 +87,11 @@ void SettingsParser::parse_config_file(bool allow_unregistered) {
 }
 
 bool SettingsParser::finalize_settings() {
-	return std::any_of(mFinalizer.begin(), mFinalizer.end(),
-		[](const auto& f){ return f(); }
-	);
+	bool changed = false;
+	for (const auto& f: mFinalizer) {
+		changed = f() || changed;
+	}
+	return changed;
 }
 
 void SettingsParser::finalize() {
-- 
2.43.0


From 59f5ff794509a27cc793c39e676aa571cd482e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:19 +0000
Subject: [PATCH 093/141] fix: collecting statistics repeatedly kept the first
 values

---
 src/carl-statistics/Statistics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carl-statistics/Statistics.h b/src/carl-statistics/Statistics.h
index df67e8f..a3a29f0 100644
--- a/src/carl-statistics/Statistics.h
+++ b/src/carl-statistics/Statistics.h
@@ -26,14 +26,14 @@ protected:
 		assert(!has_illegal_chars(key) && "spaces, (, ) are not allowed here");
 		if constexpr(std::is_same<T,std::string>::value) {
 			assert(!has_illegal_chars(static_cast<std::string>(value)) && "spaces, (, ) are not allowed here");
-			mCollected.emplace(key, value);
+			mCollected.insert_or_assign(key, value);
 		} else if constexpr(std::is_same<T,timer>::value) {
-			mCollected.emplace(key+"_count", std::to_string(static_cast<timer>(value).count()));
-			mCollected.emplace(key+"_overall_ms", std::to_string(static_cast<timer>(value).overall_ms()));
+			mCollected.insert_or_assign(key+"_count", std::to_string(static_cast<timer>(value).count()));
+			mCollected.insert_or_assign(key+"_overall_ms", std::to_string(static_cast<timer>(value).overall_ms()));
 		} else {
 			std::stringstream ss;
 			ss << value;
-			mCollected.emplace(key, ss.str());
+			mCollected.insert_or_assign(key, ss.str());
 		}
 	}
 public:
-- 
2.43.0


From db78d2b5a623f47604ce4fe38bf66d7bb302256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:18 +0000
Subject: [PATCH 094/141] fix: signed division of a constant bit-vector term by
 zero

---
 src/carl/formula/bitvector/BVTermPool.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/formula/bitvector/BVTermPool.cpp b/src/carl/formula/bitvector/BVTermPool.cpp
index 3f52409..c40f325 100644
--- a/src/carl/formula/bitvector/BVTermPool.cpp
+++ b/src/carl/formula/bitvector/BVTermPool.cpp
@@ -70,15 +70,12 @@ namespace carl
 					return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 				case BVTermType::DIV_S:
 					if (_first.isConstant()) {
-						if (_first.value().isZero()) {
-							// Zero -> 1
-							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
-						} else if (_first.value()[_first.width()-1]) {
+						if (_first.value()[_first.width()-1]) {
 							// Negative -> 1
 							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
 						} else {
-							// Positive -> _first
-							return _first.mpContent;
+							// Non-negative -> -1
+							return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 						}
 					}
 					break;
-- 
2.43.0


From 41b446ebb46ff1c203e0b9a1ba7efa53a92ab6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:18 +0000
Subject: [PATCH 095/141] fix: keep persistent variables of different types
 apart

---
 src/carl/core/VariablePool.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/VariablePool.cpp b/src/carl/core/VariablePool.cpp
index a6879fc..20b9db0 100644
--- a/src/carl/core/VariablePool.cpp
+++ b/src/carl/core/VariablePool.cpp
@@ -39,16 +39,13 @@ Variable VariablePool::getFreshVariable(const std::string& name, VariableType ty
 
 Variable VariablePool::getFreshPersistentVariable(VariableType type) noexcept {
 	Variable res = getFreshVariable(type);
-	if (res.id() >= mPersistentVariables.size()) {
-		mPersistentVariables.resize(res.id()+1, std::make_pair(Variable::NO_VARIABLE, ""));
-	}
-	mPersistentVariables[res.id()] = std::make_pair(res, "");
+	mPersistentVariables.emplace_back(res, "");
 	return res;
 }
 
 Variable VariablePool::getFreshPersistentVariable(const std::string& name, VariableType type) {
 	Variable res = getFreshPersistentVariable(type);
-	mPersistentVariables[res.id()] = std::make_pair(res, name);
+	mPersistentVariables.back().second = name;
 	setName(res, name);
 	return res;
 }
-- 
2.43.0


From a5811c54efe8cc165bffc5790abdc42b7ba1512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:18 +0000
Subject: [PATCH 096/141] fix: keep the indices of parametrised sorts when
 instantiating a sort definition

---
 src/carl/formula/SortManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index efbdaf1..ca3fd84 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -48,7 +48,9 @@ Sort SortManager::replace(const Sort& sort, const std::map<std::string, Sort>& p
 	v.reserve(sc.parameters->size());
 	for (const auto& sd : *sc.parameters)
 		v.push_back(replace(sd, parameters));
-	return getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	Sort res = getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	if (sc.indices == nullptr) return res;
+	return index(res, *sc.indices);
 }
 
 bool SortManager::declare(const std::string& name, std::size_t arity) {
-- 
2.43.0


From d7c2266298e0b7788947fe2b137c577a12235fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:18 +0000
Subject: [PATCH 097/141] fix: look up defined sorts without parameters

---
 src/carl/formula/SortManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index ca3fd84..10183d9 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -100,6 +100,8 @@ Sort SortManager::getSort(const std::string& name) {
 	// Find an instantiation of the given sort template.
 	auto it = mSortMap.find(sc.get());
 	if (it == mSortMap.end()) {
+		auto def = mDefinitions.find(name);
+		if (def != mDefinitions.end() && def->second.first.empty()) return def->second.second;
 		CARL_LOG_ERROR("carl.formula", "The sort " << name << " has not been declared or defined.");
 		return Sort(0);
 	}
-- 
2.43.0


From 9a564e115078e54c436325b55dbe98230c8f7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:18 +0000
Subject: [PATCH 098/141] fix: end iterator and output of variable sets with
 pending duplicates

---
 src/carl/core/Variables.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/Variables.h b/src/carl/core/Variables.h
index dcb26c3..9dff70f 100644
--- a/src/carl/core/Variables.h
+++ b/src/carl/core/Variables.h
@@ -115,6 +115,7 @@ public:
 		return mVariables.begin();
 	}
 	auto end() const {
+		compact(true);
 		return mVariables.end();
 	}
 	auto begin() {
@@ -122,6 +123,7 @@ public:
 		return mVariables.begin();
 	}
 	auto end() {
+		compact(true);
 		return mVariables.end();
 	}
 
@@ -213,7 +215,7 @@ inline bool operator==(const carlVariables& lhs, const carlVariables& rhs) {
 	return lhs.mVariables == rhs.mVariables;
 }
 inline std::ostream& operator<<(std::ostream& os, const carlVariables& vars) {
-	return os << vars.mVariables;
+	return os << vars.as_vector();
 }
 
 /// Return the variables as collected by the methods above.
-- 
2.43.0


From 0e4c7e62a704dd0ead532643bc3f82e06bc1b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:27 +0000
Subject: [PATCH 099/141] fix: thread-safe lookup of a monomial that is being
 released

---
 src/carl/core/MonomialPool.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/carl/core/MonomialPool.cpp b/src/carl/core/MonomialPool.cpp
index 052bf50..8c5cbe0 100644
--- a/src/carl/core/MonomialPool.cpp
+++ b/src/carl/core/MonomialPool.cpp
@@ -12,19 +12,23 @@ namespace carl {
 Monomial::Arg MonomialPool::add(Monomial::Content&& c, exponent totalDegree) {
 	CARL_LOG_TRACE("carl.core.monomial", c << ", " << totalDegree);
 
-	MONOMIAL_POOL_LOCK_GUARD
-
-	underlying_set::insert_commit_data insert_data;
-	auto res = mPool.insert_check(c, content_hash(), content_equal(), insert_data);
-	if (!res.second) {
-		return res.first->mWeakPtr.lock();
-	} else {
-		auto shared = std::shared_ptr<Monomial>(new Monomial(c, totalDegree));
-		shared.get()->mId = mIDs.get();
-		shared.get()->mWeakPtr = shared;
-		mPool.insert_commit(*shared.get(), insert_data);
-		check_rehash();
-		return shared;
+	while (true) {
+		MONOMIAL_POOL_LOCK_GUARD
+
+		underlying_set::insert_commit_data insert_data;
+		auto res = mPool.insert_check(c, content_hash(), content_equal(), insert_data);
+		if (!res.second) {
+			Monomial::Arg shared = res.first->mWeakPtr.lock();
+			if (shared) return shared;
+			// Another thread dropped the last reference and is about to remove this monomial, try again.
+		} else {
+			auto shared = std::shared_ptr<Monomial>(new Monomial(c, totalDegree));
+			shared.get()->mId = mIDs.get();
+			shared.get()->mWeakPtr = shared;
+			mPool.insert_commit(*shared.get(), insert_data);
+			check_rehash();
+			return shared;
+		}
 	}
 }
 
-- 
2.43.0


From 2a3cde1467a42ccccfdf3c5d7ce7b5c8f68e7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:27 +0000
Subject: [PATCH 100/141] fix: thread-safe size of the monomial pool

---
 src/carl/core/MonomialPool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MonomialPool.h b/src/carl/core/MonomialPool.h
index 2d6e96d..d4260fd 100644
--- a/src/carl/core/MonomialPool.h
+++ b/src/carl/core/MonomialPool.h
@@ -150,6 +150,7 @@ public:
 	}
 
 	std::size_t size() const {
+		MONOMIAL_POOL_LOCK_GUARD
 		return mPool.size();
 	}
 	std::size_t largestID() const {
-- 
2.43.0


From beb8c4c0a0a62f6bfc806bb75f8527169a51587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:56 +0000
Subject: [PATCH 101/141] fix: thread-safe lookup of a constraint that is being
 released

---
 src/carl/formula/ConstraintPool.tpp | 33 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/carl/formula/ConstraintPool.tpp b/src/carl/formula/ConstraintPool.tpp
index 33aa665..731b74d 100644
--- a/src/carl/formula/ConstraintPool.tpp
+++ b/src/carl/formula/ConstraintPool.tpp
@@ -55,23 +55,28 @@ std::shared_ptr<ConstraintContent<Pol>> ConstraintPool<Pol>::create(const Pol& _
 
 template<typename Pol>
 std::shared_ptr<ConstraintContent<Pol>> ConstraintPool<Pol>::add(RawConstraint<Pol>&& _constraint) {
-	CONSTRAINT_POOL_LOCK_GUARD
+	while (true) {
+		CONSTRAINT_POOL_LOCK_GUARD
 
-	CARL_LOG_DEBUG("carl.pool", "Adding constraint");
-	unsigned constraintConsistent = _constraint.is_consistent();
-	CARL_LOG_DEBUG("carl.pool", "Consistent? " << constraintConsistent);
+		CARL_LOG_DEBUG("carl.pool", "Adding constraint");
+		unsigned constraintConsistent = _constraint.is_consistent();
+		CARL_LOG_DEBUG("carl.pool", "Consistent? " << constraintConsistent);
 
-	///@todo Use appropriate constant instead of 2.
-	if (constraintConsistent == 2) { // Constraint contains variables.
-		auto res = mPool.find(_constraint, content_hash(), content_equal());
-		if (res != mPool.end()) {
-			return res->mWeakPtr.lock();
-		} else {
-			_constraint.simplify();
-			return addToPool(std::move(_constraint));
+		///@todo Use appropriate constant instead of 2.
+		if (constraintConsistent == 2) { // Constraint contains variables.
+			std::shared_ptr<ConstraintContent<Pol>> shared;
+			auto res = mPool.find(_constraint, content_hash(), content_equal());
+			if (res != mPool.end()) {
+				shared = res->mWeakPtr.lock();
+			} else {
+				_constraint.simplify();
+				shared = addToPool(std::move(_constraint));
+			}
+			if (shared) return shared;
+			// Another thread dropped the last reference and is about to remove this constraint, try again.
+		} else { // Constraint contains no variables.
+			return constraintConsistent ? mConsistentConstraint : mInconsistentConstraint;
 		}
-	} else { // Constraint contains no variables.
-		return constraintConsistent ? mConsistentConstraint : mInconsistentConstraint;
 	}
 }
 
-- 
2.43.0


From 946e5054667c610e6f4dd763dba531128938cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:13 +0000
Subject: [PATCH 102/141] fix: thread-safe enumeration of primes

---
 src/carl/numbers/PrimeFactory.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/carl/numbers/PrimeFactory.h b/src/carl/numbers/PrimeFactory.h
index 31e5ae3..532d59f 100644
--- a/src/carl/numbers/PrimeFactory.h
+++ b/src/carl/numbers/PrimeFactory.h
@@ -2,6 +2,7 @@
 
 #include "numbers.h"
 
+#include <deque>
 #include <mutex>
 
 namespace carl {
@@ -12,23 +13,30 @@ namespace carl {
 template<typename T>
 class PrimeFactory
 {
-	static std::vector<T> mPrimes;
+	/// The primes, in a container that does not invalidate references when it grows.
+	static std::deque<T> mPrimes;
 #ifdef THREAD_SAFE
-	static std::mutex mPrimeMutex;
+	static std::recursive_mutex mPrimeMutex;
+#define PRIME_LOCK_GUARD std::lock_guard<std::recursive_mutex> guard(mPrimeMutex);
+#else
+#define PRIME_LOCK_GUARD
 #endif
 	std::size_t mNext = 0;
 public:
 	/// Returns the number of already computed primes.
 	std::size_t size() const {
+		PRIME_LOCK_GUARD
 		return mPrimes.size();
 	}
 	/// Provides const access to the computed primes. Asserts that id is smaller than size().
 	const T& operator[](std::size_t id) const {
+		PRIME_LOCK_GUARD
 		assert(id < mPrimes.size());
 		return mPrimes[id];
 	}
 	/// Provides access to the computed primes. If id is at least size(), the missing primes are computed on-the-fly.
 	const T& operator[](std::size_t id) {
+		PRIME_LOCK_GUARD
 		while (id >= mPrimes.size()) nextPrime();
 		return mPrimes[id];
 	}
@@ -37,13 +45,13 @@ public:
 };
 
 template<typename T>
-std::vector<T> PrimeFactory<T>::mPrimes = {
+std::deque<T> PrimeFactory<T>::mPrimes = {
 	2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41,
 	43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97
 };
 #ifdef THREAD_SAFE
 template<typename T>
-std::mutex PrimeFactory<T>::mPrimeMutex;
+std::recursive_mutex PrimeFactory<T>::mPrimeMutex;
 #endif
 
 namespace detail {
@@ -72,13 +80,13 @@ namespace detail {
 
 template<typename T>
 const T& PrimeFactory<T>::nextPrime() {
+	PRIME_LOCK_GUARD
 	if (mNext == mPrimes.size()) {
-#ifdef THREAD_SAFE
-		std::lock_guard<std::mutex> guard(mPrimeMutex);
-#endif
 		mPrimes.emplace_back(detail::next_prime(mPrimes.back(), *this));
 	}
     return mPrimes[mNext++];
 }
 
+#undef PRIME_LOCK_GUARD
+
 }
-- 
2.43.0


From 11bb24d76846f3915cfeae59e5ce27c04766c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:56 +0000
Subject: [PATCH 103/141] fix: release the temporary number when a bit-vector
 value is created from an integer

---
 src/carl/formula/bitvector/BVValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 48873cd..2161bf7 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -35,6 +35,7 @@ BVValue::BVValue(std::size_t _width, const mpz_class& _value) {
 		mValue.append(&bits[0], &bits[0] + blockCount);
 		mValue.resize(_width);
 	}
+	mpz_clear(value);
 
 	// If the value was negative, finalize the construction of the two's complement
 	// by inverting all bits
-- 
2.43.0


From fbf642b9c443b71a2cbb2fdd23352d973894f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:16 +0000
Subject: [PATCH 104/141] fix: release the terms that are dropped from the term
 addition manager

---
 src/carl/util/TermAdditionManager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/TermAdditionManager.h b/src/carl/util/TermAdditionManager.h
index 4b77437..b838654 100644
--- a/src/carl/util/TermAdditionManager.h
+++ b/src/carl/util/TermAdditionManager.h
@@ -210,6 +210,7 @@ public:
 		for (auto i = t.begin(); i != t.end(); i++) {
 			if ((*i).monomial()) termIDs[(*i).monomial()->id()] = 0;
 		}
+		t.clear();
 		TAM_LOCK_GUARD
 		std::get<2>(data) = false;
 	}
-- 
2.43.0


From dd26cb3e649fc358ad35c4a27bcd0abbf9f70dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:16 +0000
Subject: [PATCH 105/141] fix: release the remaining entries of a reductor

---
 src/carl/groebner/Reductor.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/carl/groebner/Reductor.h b/src/carl/groebner/Reductor.h
index 518f2b6..061a48b 100644
--- a/src/carl/groebner/Reductor.h
+++ b/src/carl/groebner/Reductor.h
@@ -96,7 +96,18 @@ public:
 		insert(f);
 	}
 
-	virtual ~Reductor()	= default;
+	Reductor(const Reductor&) = delete;
+	Reductor& operator=(const Reductor&) = delete;
+
+	virtual ~Reductor()
+	{
+		while(!mDatastruct.empty())
+		{
+			auto entry = mDatastruct.top();
+			mDatastruct.pop();
+			delete entry;
+		}
+	}
 
 	/**
 	 * The basic reduce routine on a priority queue.
-- 
2.43.0


From 6eb826335b625a928207301f010da7ee5f69266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:51 +0000
Subject: [PATCH 106/141] fix: return only roots inside the search interval for
 low degrees

---
 src/carl/ran/interval/RealRootIsolation.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 6a100b9..908ae83 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -114,12 +114,15 @@ class RealRootIsolation {
 	void add_trivial_root(const Number& n) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << n);
 		assert(carl::is_root_of(mPolynomial, n));
+		if (!mInterval.contains(n)) return;
 		mRoots.emplace_back(n);
 	}
 
 	void add_trivial_root(const Interval<Number>& i) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << i);
-		mRoots.emplace_back(mPolynomial, i);
+		real_algebraic_number_interval<Number> root(mPolynomial, i);
+		if (!root.contained_in(mInterval)) return;
+		mRoots.emplace_back(std::move(root));
 	}
 
 	/// Use root bounds to shrink mInterval.
-- 
2.43.0


From 79df17c18d2f279d0a5fc0c13f2fc47e86517c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:55 +0000
Subject: [PATCH 107/141] fix: handle roots at strict bounds of the search
 interval

---
 src/carl/ran/interval/RealRootIsolation.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 908ae83..d340630 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -149,17 +149,21 @@ class RealRootIsolation {
 	/// Check whether the interval bounds are roots.
 	bool check_interval_bounds() {
 		bool found_root = false;
-		if (mInterval.lowerBoundType() == BoundType::WEAK) {
-			if (carl::is_root_of(mPolynomial, mInterval.lower())) {
+		if (carl::is_root_of(mPolynomial, mInterval.lower())) {
+			if (mInterval.lowerBoundType() == BoundType::WEAK) {
 				add_root(mInterval.lower());
-				found_root = true;
+			} else {
+				eliminate_root(mPolynomial, mInterval.lower());
 			}
+			found_root = true;
 		}
-		if (mInterval.upperBoundType() == BoundType::WEAK) {
-			if (carl::is_root_of(mPolynomial, mInterval.upper())) {
+		if (carl::is_root_of(mPolynomial, mInterval.upper())) {
+			if (mInterval.upperBoundType() == BoundType::WEAK) {
 				add_root(mInterval.upper());
-				found_root = true;
+			} else {
+				eliminate_root(mPolynomial, mInterval.upper());
 			}
+			found_root = true;
 		}
 		return found_root;
 	}
-- 
2.43.0


From 6a9a39699a835c31c77d43b8b239ad59ed5d72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:55 +0000
Subject: [PATCH 108/141] fix: no roots if the search interval lies outside of
 the root bounds

---
 src/carl/ran/interval/RealRootIsolation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index d340630..631d32e 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -289,6 +289,9 @@ class RealRootIsolation {
 			}
 			// Use bounds to make interval smaller
 			update_root_bounds();
+			if (mInterval.isEmpty()) {
+				return;
+			}
 			// Check whether interval bounds are roots
 			if (!check_interval_bounds()) {
 				break;
-- 
2.43.0


From f81711f8be1a954db1fadca1d063506999c0f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:41 +0000
Subject: [PATCH 109/141] fix: algebraic numbers with disjoint intervals are
 not equal

---
 src/carl/ran/interval/ran_interval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 0da32d2..a9ce318 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -428,10 +428,10 @@ bool compare(const real_algebraic_number_interval<Number>& lhs, const real_algeb
 	CARL_LOG_TRACE("carl.ran", "Intervals " << lhs.interval_int() << " and " << rhs.interval_int() << " are disjoint");
 	assert(!carl::set_have_intersection(lhs.interval_int(), rhs.interval_int()));
 	if (lhs.interval_int().upper() <= rhs.interval_int().lower()) {
-		return relation == Relation::LESS || relation == Relation::LEQ;
+		return relation == Relation::NEQ || relation == Relation::LESS || relation == Relation::LEQ;
 	}
 	if (lhs.interval_int().lower() >= rhs.interval_int().upper()) {
-		return relation == Relation::GREATER || relation == Relation::GEQ;
+		return relation == Relation::NEQ || relation == Relation::GREATER || relation == Relation::GEQ;
 	}
 
 	assert(false);
-- 
2.43.0


From ad6f3c965c4e9b246ed6ceb89f0d686d5af900c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:41 +0000
Subject: [PATCH 110/141] fix: separate overlapping intervals before sampling
 between two algebraic numbers

---
 src/carl/ran/interval/ran_interval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index a9ce318..4a85c44 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -324,6 +324,10 @@ template<typename Number>
 Number sample_between(const real_algebraic_number_interval<Number>& lower, const real_algebraic_number_interval<Number>& upper) {
 	lower.refine_using(upper.interval_int().lower());
 	upper.refine_using(lower.interval_int().upper());
+	while (lower.interval_int().upper() > upper.interval_int().lower()) {
+		lower.refine();
+		upper.refine();
+	}
 	assert(lower.interval_int().upper() <= upper.interval_int().lower());
 	if (lower.is_numeric()) {
 		return sample_between(lower.value(), upper);
-- 
2.43.0


From 15e65767abe0b50ec666d42cc20ed23d6827fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:10 +0000
Subject: [PATCH 111/141] fix: evaluate only when every variable of the
 polynomial has a value

---
 src/carl/ran/interval/ran_interval_extra.h | 24 ++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/carl/ran/interval/ran_interval_extra.h b/src/carl/ran/interval/ran_interval_extra.h
index 0c7ef9b..21afd02 100644
--- a/src/carl/ran/interval/ran_interval_extra.h
+++ b/src/carl/ran/interval/ran_interval_extra.h
@@ -124,7 +124,7 @@ public:
 	bool assign(Variable var, const real_algebraic_number_interval<Number>& ran, bool refine_model = true) {
 		assert(m_ir_assignments.find(var) == m_ir_assignments.end());
 		if (m_original_poly.isConstant()) return true;
-		if (!m_poly.has(var)) return false;
+		if (!m_original_poly.has(var)) return false;
 
 		CARL_LOG_TRACE("carl.ran", "Assign " << var << " -> " << ran);
 
@@ -141,22 +141,30 @@ public:
 			carl::substitute_inplace(m_original_poly, var, MultivariatePolynomial<Number>(ran.value()));
 			CARL_LOG_TRACE("carl.ran", "Remainung poly: " << m_poly << "; original: " << m_original_poly);
 			assert(carl::variables(m_poly).size() > 1 || carl::variables(m_poly) == carlVariables({ m_var }));
-			return carl::variables(m_poly).size() == 1 || m_original_poly.isConstant();
+			return has_value();
 		} else {
 			CARL_LOG_TRACE("carl.ran", "Still an interval: " << ran);
 			m_ir_assignments.emplace(var, ran);
-			const auto poly = replace_main_variable(ran.polynomial(), var).template convert<MultivariatePolynomial<Number>>();
-			m_poly = pseudo_remainder(switch_main_variable(m_poly, var), poly);
-			m_poly = carl::resultant(m_poly, poly);
-			m_poly = switch_main_variable(m_poly, m_var);
+			// the resultants may already have eliminated the variable
+			if (m_poly.has(var)) {
+				const auto poly = replace_main_variable(ran.polynomial(), var).template convert<MultivariatePolynomial<Number>>();
+				m_poly = pseudo_remainder(switch_main_variable(m_poly, var), poly);
+				m_poly = carl::resultant(m_poly, poly);
+				m_poly = switch_main_variable(m_poly, m_var);
+			}
 			CARL_LOG_TRACE("carl.ran", "Remainung poly: " << m_poly << "; original: " << m_original_poly);
 			assert(carl::variables(m_poly).size() > 1 || carl::variables(m_poly) == carlVariables({ m_var }));
-			return carl::variables(m_poly).size() == 1 || m_original_poly.isConstant();
+			return has_value();
 		}
 	}
 
 	bool has_value() const {
-		return carl::variables(m_poly).size() == 1 || m_original_poly.isConstant();
+		if (m_original_poly.isConstant()) return true;
+		if (carl::variables(m_poly).size() != 1) return false;
+		for (Variable v: carl::variables(m_original_poly)) {
+			if (m_ir_assignments.find(v) == m_ir_assignments.end()) return false;
+		}
+		return true;
 	}
 
 	auto value() {
-- 
2.43.0


From 738bca2534b95f3712c890004128a0a52b5cee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:10 +0000
Subject: [PATCH 112/141] fix: sign of a polynomial at a rational algebraic
 number

---
 src/carl/ran/interval/ran_interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 4a85c44..4a8b7c5 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -278,6 +278,7 @@ public:
 	}
 
 	Sign sgn(const Polynomial& p) const {
+		if (is_numeric()) return carl::sgn(carl::evaluate(p, value()));
 		Polynomial tmp = replaceVariable(p);
 		if (polynomial_int() == tmp) return Sign::ZERO;
 		auto seq = carl::sturm_sequence(polynomial_int(), derivative(polynomial_int()) * tmp);
-- 
2.43.0


From a7ff6be442729587731f23d9d6b17977b2b6ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:20 +0000
Subject: [PATCH 113/141] fix: string parser rejects malformed coefficients,
 exponents and repeated variables

Malformed coefficients and repeated variables ran into assertions, and a
negative exponent was read as a huge unsigned one.
---
 src/carl/util/stringparser.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index b8285a4..0c28bd3 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -224,6 +224,10 @@ namespace carl
 						auto it = mVars.find(varAndExp.front());
 						if(it != mVars.end())
 						{
+							if(varAndExp.back().find_first_not_of("0123456789") != std::string::npos)
+							{
+								throw InvalidInputStringException("Exponent is not a number", veStr);
+							}
 							try
 							{
 								unsigned exp = boost::lexical_cast<unsigned>(varAndExp.back());
@@ -247,12 +251,11 @@ namespace carl
 			}
 			
 			std::sort(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first < p2.first; });
-			size_t nrVariables = varExpPairs.size();
-			std::unique(varExpPairs.begin(), varExpPairs.end());
-			if(nrVariables != varExpPairs.size())
+			if(std::adjacent_find(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first == p2.first; }) != varExpPairs.end())
 			{
 				throw InvalidInputStringException("Variable occurs twice", inputStr);
 			}
+			varExpPairs.erase(std::remove_if(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p){ return p.second == 0; }), varExpPairs.end());
 			if(varExpPairs.empty())
 			{
 				return Term<C>(coeff);
@@ -270,21 +273,16 @@ namespace carl
 		C constructCoefficient(const std::string& inputString) const
 		{
             std::string inputStringCopy = inputString;
-            assert(!inputStringCopy.empty());
-            if( inputStringCopy[0] == '(' )
+            if( inputStringCopy.size() > 1 && inputStringCopy.front() == '(' && inputStringCopy.back() == ')' )
             {
-                assert(inputStringCopy.back() == ')');
                 inputStringCopy = inputStringCopy.substr( 1, inputStringCopy.size()-2 );
             }
-			try
-			{
-				return parse<C>(inputStringCopy);
-			}
-			catch(std::exception&)
+			C result;
+			if(inputStringCopy.empty() || !try_parse<C>(inputStringCopy, result))
 			{
 				throw InvalidInputStringException("Could not build coefficient", inputStringCopy);
 			}
-			
+			return result;
 		}
 		
 	};
-- 
2.43.0


From 9f0c27bb3f1c77a3e810ca6f7d11d4628620e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:38 +0000
Subject: [PATCH 114/141] fix: size, emptiness and iteration of formulas of
 every type

Negations, uninterpreted equalities and quantified formulas threw
bad_variant_access, and iterating over an implication or if-then-else
failed an assertion at the end iterator.
---
 src/carl/formula/Formula.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/carl/formula/Formula.h b/src/carl/formula/Formula.h
index d34b035..f668d62 100644
--- a/src/carl/formula/Formula.h
+++ b/src/carl/formula/Formula.h
@@ -477,9 +477,7 @@ namespace carl
              */
             size_t size() const
             {
-                if( mpContent->mType == FormulaType::BOOL || mpContent->mType == FormulaType::CONSTRAINT || mpContent->mType == FormulaType::TRUE
-                        || mpContent->mType == FormulaType::FALSE || mpContent->mType == FormulaType::NOT || mpContent->mType == FormulaType::UEQ
-                        || mpContent->mType == FormulaType::BITVECTOR )
+                if( !isNary() )
                     return 1;
                 else
                     return std::get<Formulas<Pol>>(mpContent->mContent).size();
@@ -491,9 +489,7 @@ namespace carl
              */
             bool empty() const
             {
-                if( mpContent->mType == FormulaType::BOOL || mpContent->mType == FormulaType::CONSTRAINT
-                        || mpContent->mType == FormulaType::TRUE || mpContent->mType == FormulaType::FALSE
-                        || mpContent->mType == FormulaType::BITVECTOR )
+                if( !isNary() )
                     return false;
                 else
 					return std::get<Formulas<Pol>>(mpContent->mContent).empty();
@@ -513,8 +509,7 @@ namespace carl
              */
             const_iterator end() const
             {
-                assert( mpContent->mType == FormulaType::AND || mpContent->mType == FormulaType::OR
-                        || mpContent->mType == FormulaType::IFF || mpContent->mType == FormulaType::XOR );
+                assert( isNary() );
                 return std::get<Formulas<Pol>>(mpContent->mContent).end();
             }
 
-- 
2.43.0


From bceca04052fed5c275e289bf00601cf2a4788cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:38 +0000
Subject: [PATCH 115/141] fix: equivalence of a constant and several formulas

(= true a b) became (= a b) and (= false a b) became its negation.
---
 src/carl/formula/FormulaPool.tpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index 7dd3451..cde1797 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -201,6 +201,14 @@ namespace carl
             }
             ++pos;   
         }
+        if( _type == FormulaType::IFF && pos > 0 && pos < _subformulas.size() )
+        {
+            // The constants fix the truth value of all remaining sub-formulas.
+            Formulas<Pol> remaining( _subformulas.begin() + static_cast<std::ptrdiff_t>(pos), _subformulas.end() );
+            if( negateResult )
+                return createNAry( FormulaType::OR, std::move( remaining ) )->mNegation;
+            return createNAry( FormulaType::AND, std::move( remaining ) );
+        }
         for( ; pos < _subformulas.size(); )
         {
             if( pos < _subformulas.size() - 1 )
-- 
2.43.0


From 36a0107e8522f03cdb01227fa8c1933d1c18a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:38 +0000
Subject: [PATCH 116/141] fix: combinations of formulas inherit the weak
 inequality property

---
 src/carl/formula/Condition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/Condition.h b/src/carl/formula/Condition.h
index 6388226..aede478 100644
--- a/src/carl/formula/Condition.h
+++ b/src/carl/formula/Condition.h
@@ -76,7 +76,7 @@ namespace carl {
     static constexpr Condition PROP_VARIABLE_DEGREE_GREATER_THAN_THREE  = Condition( 29 );
     static constexpr Condition PROP_VARIABLE_DEGREE_GREATER_THAN_FOUR = Condition( 30 );
     static constexpr Condition PROP_CONTAINS_WEAK_INEQUALITY       = Condition( 31 );
-    static const Condition WEAK_CONDITIONS                       = PROP_CONTAINS_EQUATION | PROP_CONTAINS_INEQUALITY | PROP_CONTAINS_STRICT_INEQUALITY
+    static const Condition WEAK_CONDITIONS                       = PROP_CONTAINS_EQUATION | PROP_CONTAINS_INEQUALITY | PROP_CONTAINS_STRICT_INEQUALITY | PROP_CONTAINS_WEAK_INEQUALITY
                                              | PROP_CONTAINS_LINEAR_POLYNOMIAL | PROP_CONTAINS_LINEAR_POLYNOMIAL | PROP_CONTAINS_NONLINEAR_POLYNOMIAL
                                              | PROP_CONTAINS_MULTIVARIATE_POLYNOMIAL | PROP_CONTAINS_INEQUALITY | PROP_CONTAINS_BOOLEAN
                                              | PROP_CONTAINS_REAL_VALUED_VARS | PROP_CONTAINS_INTEGER_VALUED_VARS
-- 
2.43.0


From 49f205d366ecdc22fc8f0ca24f1f4c6fc233dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:06 +0000
Subject: [PATCH 117/141] fix: simplify trivial uninterpreted equalities
 however they are given

An equality of a term with itself was only reduced to a constant when
its two sides were passed separately.
---
 src/carl/formula/FormulaPool.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index 4d12b02..bb6dc64 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -429,17 +429,17 @@ namespace carl
 
 			const FormulaContent<Pol>* create( const UTerm& _lhs, const UTerm& _rhs, bool _negated )
 			{
-                #ifdef SIMPLIFY_FORMULA
-				if (_lhs == _rhs) {
-					if (_negated) return falseFormula();
-					else return trueFormula();
-				}
-				#endif
 				return create(UEquality(_lhs, _rhs, _negated));
 			}
 
 			const FormulaContent<Pol>* create( UEquality&& eq )
 			{
+				#ifdef SIMPLIFY_FORMULA
+				if (eq.lhs() == eq.rhs()) {
+					if (eq.negated()) return falseFormula();
+					else return trueFormula();
+				}
+				#endif
 				if (isBaseFormula(eq)) {
                     return add(new FormulaContent<Pol>(std::move(eq)));
                 } else {
-- 
2.43.0


From fb153906d30ac8a1ae2701457f1c4685e775bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:02 +0000
Subject: [PATCH 118/141] fix: formulas of constraints whose negation is
 normalized differently

Over the integers the negation of 3x^2-2 >= 0 is x = 0, whose negation is
x != 0. The pool then contained the negation already and failed an
assertion, or stored it twice.
---
 src/carl/formula/FormulaPool.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index bb6dc64..f447f5c 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -229,10 +229,15 @@ namespace carl
                     default: ;
                 }
                 #endif
+                Constraint<Pol> negation = _constraint.negation();
+                if (negation.negation() != _constraint) {
+                    // Normalization simplified the negation further, thus use its counterpart instead.
+                    return create(std::move(negation))->mNegation;
+                }
                 if (isBaseFormula(_constraint)) {
                     return add(new FormulaContent<Pol>(std::move(_constraint)));
                 } else {
-                    return add(new FormulaContent<Pol>(_constraint.negation()))->mNegation;
+                    return add(new FormulaContent<Pol>(std::move(negation)))->mNegation;
                 }
             }
             const FormulaContent<Pol>* create(const Constraint<Pol>& _constraint) {
-- 
2.43.0


From deb61b0d5ef03713092b5026c95f18ffbe6b1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:04 +0000
Subject: [PATCH 119/141] fix: conversion to CNF with implications for Tseitin
 variables terminates

The implication of a conjunction was processed as a disjunction again,
which introduced the same Tseitin variable and implication forever.
---
 src/carl/formula/helpers/to_cnf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/helpers/to_cnf.h b/src/carl/formula/helpers/to_cnf.h
index 00eb4cb..a18f756 100644
--- a/src/carl/formula/helpers/to_cnf.h
+++ b/src/carl/formula/helpers/to_cnf.h
@@ -127,7 +127,10 @@ Formula<Poly> to_cnf_or(const Formula<Poly>& f, bool keep_constraints, bool simp
 				if (tseitin_equivalence) {
 					tseitin.emplace_back(Formula<Poly>(FormulaType::IFF, { tseitinVar, current }));
 				} else {
-					tseitin.emplace_back(Formula<Poly>(FormulaType::IMPLIES, { tseitinVar, current }));
+					// (=> t (and A ...)) -> (or (not t) A), ...
+					for (const auto& sub: current.subformulas()) {
+						tseitin.emplace_back(Formula<Poly>(FormulaType::OR, { !tseitinVar, sub }));
+					}
 				}
 				subformulas.emplace_back(tseitinVar);
 				break;
-- 
2.43.0


From de77c7c5be299fe20c1ec60bdaa5e1563b03b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:44 +0000
Subject: [PATCH 120/141] fix: disjunctions of bounds with the same value

(or (p > 0) (p >= 0)) was taken for a tautology, and p != 0 was dropped
from (or (p < 0) (p != 0)).
---
 src/carl/formula/Formula.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index 05d038d..6d544c1 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -694,7 +694,7 @@ namespace carl
                         case Relation::GREATER:
                             resB.first->second.first = Relation::GEQ;
                             resB.first->second.second = _constraint;
-                            return Formula( FormulaType::FALSE );
+                            return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::NEQ );
                             return Formula( FormulaType::FALSE );
@@ -824,9 +824,13 @@ namespace carl
                         case Relation::GEQ:
                             return Formula( FormulaType::FALSE );
                         case Relation::LESS:
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::GREATER );
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                     }
                 }
-- 
2.43.0


From ef850fba7a53a72399a63522ad73a315738b05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:44 +0000
Subject: [PATCH 121/141] fix: resolve negations of quantified formulas

They were handled like conjunctions, which failed an assertion.
---
 src/carl/formula/Formula.tpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index 6d544c1..7c6739f 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -441,11 +441,9 @@ namespace carl
                 newType = FormulaType::AND;
                 break;
             case FormulaType::EXISTS: // (not (exists (vars) phi)) -> (forall (vars) (not phi))
-                newType = FormulaType::FORALL;
-                break;
+                return Formula<Pol>( FormulaType::FORALL, subformula().quantifiedVariables(), Formula<Pol>( NOT, subformula().quantifiedFormula() ) );
             case FormulaType::FORALL: // (not (forall (vars) phi)) -> (exists (vars) (not phi))
-                newType = FormulaType::EXISTS;
-                break;
+                return Formula<Pol>( FormulaType::EXISTS, subformula().quantifiedVariables(), Formula<Pol>( NOT, subformula().quantifiedFormula() ) );
             default:
                 assert( false );
                 std::cerr << "Unexpected type of formula!" << std::endl;
-- 
2.43.0


From f89dc93258534cc48f40b7d4a9bf19c1fbc4a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:07 +0000
Subject: [PATCH 122/141] fix: substitution in formulas with bit-vector
 constraints and uninterpreted equalities

Such subformulas contain nothing to substitute but failed an assertion.
---
 src/carl/formula/Formula.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index 7c6739f..f71daa0 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -504,6 +504,11 @@ namespace carl
                 Pol lhsSubstituted = carl::substitute(constraint().lhs(), _arithmeticSubstitutions);
                 return Formula<Pol>( lhsSubstituted, constraint().relation() );
             }
+            case FormulaType::BITVECTOR:
+            case FormulaType::UEQ:
+            {
+                return *this;
+            }
             case FormulaType::NOT:
             {
                 return Formula<Pol>( FormulaType::NOT, subformula().substitute( _booleanSubstitutions, _arithmeticSubstitutions ) );
-- 
2.43.0


From ea915167f5bb133ff2d25e93abd798351dc313df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:07 +0000
Subject: [PATCH 123/141] fix: do not substitute bound variables of quantified
 formulas

---
 src/carl/formula/Formula.tpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index f71daa0..24ec40e 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -530,7 +530,15 @@ namespace carl
             case FormulaType::FORALL:
             {
                 std::vector<Variable> vars( quantifiedVariables() );
-                return Formula<Pol>(getType(), std::move( vars ), quantifiedFormula().substitute(_booleanSubstitutions, _arithmeticSubstitutions));
+                // Only free variables are substituted.
+                std::map<Variable, Formula<Pol>> booleanSubstitutions( _booleanSubstitutions );
+                std::map<Variable, Pol> arithmeticSubstitutions( _arithmeticSubstitutions );
+                for( const Variable& var : vars )
+                {
+                    booleanSubstitutions.erase( var );
+                    arithmeticSubstitutions.erase( var );
+                }
+                return Formula<Pol>(getType(), std::move( vars ), quantifiedFormula().substitute(booleanSubstitutions, arithmeticSubstitutions));
             }
             default:
             {
-- 
2.43.0


From 9aac6c87957f94894367f4d347a70cf4799bef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:10 +0000
Subject: [PATCH 124/141] fix: visit every atom once when rebuilding a formula

If a rebuilt formula simplified to an atom, the function was applied to
it again, so that substitutions were not simultaneous.
---
 src/carl/formula/helpers/FormulaVisitor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/helpers/FormulaVisitor.h b/src/carl/formula/helpers/FormulaVisitor.h
index 46e229a..2d70f83 100644
--- a/src/carl/formula/helpers/FormulaVisitor.h
+++ b/src/carl/formula/helpers/FormulaVisitor.h
@@ -111,6 +111,8 @@ struct FormulaVisitor {
 				break;
 			}
 		}
+		// If the new subformulas simplified to an atom, it has already been visited.
+		if (newFormula != formula && newFormula.isAtom()) return newFormula;
 		return func(newFormula);
 	}
 };
-- 
2.43.0


From 5ed164b84d4127b25b7cba7f6dcc07b9f8b93f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:25 +0000
Subject: [PATCH 125/141] fix: arithmetic of square root expressions where only
 one side has a root, and their quotient

---
 src/carl/vs/SqrtEx.tpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 8900383..0a796b4 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -179,11 +179,7 @@ namespace carl
 	template<typename Poly>
     SqrtEx<Poly>& SqrtEx<Poly>::operator=( const Poly& _poly )
     {
-        mConstantPart = _poly;
-        mFactor       = constant_zero<Poly>::get();
-        mDenominator  = constant_one<Poly>::get();
-        mRadicand     = constant_zero<Poly>::get();
-        return *this;
+        return *this = SqrtEx<Poly>( _poly );
     }
 
 	template<typename Poly>
@@ -192,7 +188,7 @@ namespace carl
         assert( !hasSqrt() ||!rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() + rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() + rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -202,7 +198,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() - rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() - rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -212,7 +208,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.constantPart() * constantPart() + rhs.factor() * factor() * radicand(),
                          rhs.constantPart() * factor() + rhs.factor() * constantPart(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -221,7 +217,7 @@ namespace carl
     {
         assert( !rhs.hasSqrt() );
         SqrtEx<Poly> result = SqrtEx<Poly>( constantPart() * rhs.denominator(), factor() * rhs.denominator(),
-                         denominator() * rhs.factor(), radicand() );
+                         denominator() * rhs.constantPart(), radicand() );
         return result;
     }
     
-- 
2.43.0


From 776f9f282b044eeebb99ecce8ed25e27d73cd2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:26 +0000
Subject: [PATCH 126/141] fix: value and rounded value of square root
 expressions with a denominator

---
 src/carl/vs/SqrtEx.h   |  4 ++--
 src/carl/vs/SqrtEx.tpp | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/carl/vs/SqrtEx.h b/src/carl/vs/SqrtEx.h
index 335c45e..2dca7d7 100644
--- a/src/carl/vs/SqrtEx.h
+++ b/src/carl/vs/SqrtEx.h
@@ -142,7 +142,7 @@ namespace carl
             Rational asConstant() const
             {
                 assert( isConstant() );
-                return mConstantPart.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
 
             /**
@@ -162,7 +162,7 @@ namespace carl
                 if( isConstant() )
                     return asConstant();
                 assert( isRational() );
-                return mConstantPart.constantPart()/mFactor.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
             
         private:
diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 0a796b4..3c4a0a6 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -310,19 +310,21 @@ namespace carl
             assert( _rounding != 0 );
             rounded = false;
             assert( factorValue != 0 );
+            // A negative denominator turns the direction around.
+            const bool positive = (factorValue > 0) == (denomValue > 0);
             double dbSqrt = sqrt( carl::toDouble( radicandValue ) );
             sqrtExValue = carl::rationalize<Rational>( dbSqrt ) ;
             // As there is no rational number representing the resulting square root we have to round.
             if( _rounding < 0 ) // If the result should round down in this case.
             {
-                if( factorValue > 0 && (sqrtExValue*sqrtExValue) > radicandValue )
+                if( positive && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding down.
                     dbSqrt = std::nextafter( dbSqrt, -INFINITY );
                     sqrtExValue = carl::rationalize<Rational>( dbSqrt );
                     assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
                 }
-                else if( factorValue < 0 && (sqrtExValue*sqrtExValue) < radicandValue )
+                else if( !positive && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding up.
                     dbSqrt = std::nextafter( dbSqrt, INFINITY );
@@ -332,14 +334,14 @@ namespace carl
             }
             else if( _rounding > 0 ) // If the result should round up in this case.
             {
-                if( factorValue < 0 && (sqrtExValue*sqrtExValue) > radicandValue )
+                if( !positive && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding down.
                     dbSqrt = std::nextafter( dbSqrt, -INFINITY );
                     sqrtExValue = carl::rationalize<Rational>( dbSqrt );
                     assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
                 }
-                else if( factorValue > 0 && (sqrtExValue*sqrtExValue) < radicandValue )
+                else if( positive && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding up.
                     dbSqrt = std::nextafter( dbSqrt, INFINITY );
-- 
2.43.0


From f488809c1d761a971b9d4e66853b22c50cf4038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:04 +0000
Subject: [PATCH 127/141] fix: round a square root as far as needed when
 evaluating

---
 src/carl/vs/SqrtEx.tpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 3c4a0a6..a0bd5ac 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -320,16 +320,20 @@ namespace carl
                 if( positive && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding down.
-                    dbSqrt = std::nextafter( dbSqrt, -INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, -INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    } while( (sqrtExValue*sqrtExValue) > radicandValue );
                 }
                 else if( !positive && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding up.
-                    dbSqrt = std::nextafter( dbSqrt, INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) < radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    } while( (sqrtExValue*sqrtExValue) < radicandValue );
                 }
             }
             else if( _rounding > 0 ) // If the result should round up in this case.
@@ -337,16 +341,20 @@ namespace carl
                 if( !positive && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding down.
-                    dbSqrt = std::nextafter( dbSqrt, -INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, -INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    } while( (sqrtExValue*sqrtExValue) > radicandValue );
                 }
                 else if( positive && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding up.
-                    dbSqrt = std::nextafter( dbSqrt, INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) < radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    } while( (sqrtExValue*sqrtExValue) < radicandValue );
                 }
             }
         }
-- 
2.43.0


From ca8d2f59649d6cdf873f26c3e85df90f3048fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:04 +0000
Subject: [PATCH 128/141] fix: drop the denominator of a square root expression
 that is zero

---
 src/carl/vs/SqrtEx.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index a0bd5ac..0fc1a92 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -89,7 +89,11 @@ namespace carl
                 }
             }
         }
-        if( isZero(gcdA) ) return;
+        if( isZero(gcdA) )
+        {
+            mDenominator = constant_one<Poly>::get();
+            return;
+        }
         Rational ccGcdA = gcdA.coprimeFactor();
         Poly cpGcdA = gcdA * ccGcdA;
         Rational ccDenominator = mDenominator.coprimeFactor();
-- 
2.43.0


From 2bd69143b37a127b97dfb71baf727aadda0db9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:04 +0000
Subject: [PATCH 129/141] fix: virtual substitution of plus infinity and into
 disequations

---
 src/carl/vs/substitute.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 8aa64eb..8bbbb75 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -835,9 +835,11 @@ namespace carl::vs::detail
         if( _accordingPaper )
         {
             Poly qr = _q * _r;
-            // Add conjunction (q*r>0 and q^2-r^2*radicand!=0) to the substitution result.
+            // Add conjunction (q*r>0) to the substitution result.
             _result.emplace_back();
             _result.back().push_back( Constraint<Poly>( qr, Relation::GREATER ) );
+            // Add conjunction (q^2-r^2*radicand!=0) to the substitution result.
+            _result.emplace_back();
             _result.back().push_back( Constraint<Poly>( lhs, Relation::NEQ ) );
         }
         else
@@ -1142,10 +1144,9 @@ namespace carl::vs::detail
         {
             assert( _subs.term().is_plus_infty() );
             if( _cons.relation() == Relation::LESS || _cons.relation() == Relation::LEQ )
-            {
                 oddRelationType  = Relation::LESS;
+            else
                 evenRelationType = Relation::GREATER;
-            }
         }
         // Check all cases according to the substitution rules.
         carl::uint varDegree = _cons.maxDegree( _subs.variable() );
-- 
2.43.0


From 7df13a0329a8ac90e47ba166cda47b6f480b5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:04 +0000
Subject: [PATCH 130/141] fix: sign combinations of products with repeated
 factors

---
 src/carl/vs/substitute.tpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 8bbbb75..46903a4 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -465,6 +465,18 @@ namespace carl::vs::detail
             const smtrat::Factorization& product = _constraint.factorization();
             for( auto factor = product.begin(); factor != product.end(); ++factor )
             {
+                if( factor->second % 2 == 0 )
+                {
+                    // A factor of even multiplicity contributes no sign, it only matters whether it is zero.
+                    if( relPos == Relation::GREATER )
+                        alwayspositives.push_back( Constraint<Poly>( factor->first, Relation::NEQ ) );
+                    else
+                    {
+                        combinations.emplace_back();
+                        combinations.back().push_back( Constraint<Poly>( factor->first, Relation::EQ ) );
+                    }
+                    continue;
+                }
                 Constraint<Poly> consPos = Constraint<Poly>( factor->first, relPos );
                 unsigned posConsistent = consPos.isConsistent();
                 if( posConsistent != 0 )
@@ -525,7 +537,7 @@ namespace carl::vs::detail
                     }
                 }
             }
-            else
+            else if( (numOfAlwaysNegatives % 2 == 0) == positive )
             {
                 combinations.emplace_back( alwaysnegatives );
                 combinations.back().insert( combinations.back().end(), alwayspositives.begin(), alwayspositives.end() );
-- 
2.43.0


From f7ad947d7860c8ec2a64c959a6270575c746e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:12 +0000
Subject: [PATCH 131/141] fix: coefficients of substituted factors of
 factorized polynomials

---
 src/carl-extpolys/substitution.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-extpolys/substitution.h b/src/carl-extpolys/substitution.h
index 68997b6..659847c 100644
--- a/src/carl-extpolys/substitution.h
+++ b/src/carl-extpolys/substitution.h
@@ -111,6 +111,8 @@ FactorizedPolynomial<P> substitute(const FactorizedPolynomial<P>& p, const std::
 				resultCoeff *= carl::pow(subResult.constantPart(), factor.second);
 			} else {
 				// Add substituted polynomial into factorization
+				resultCoeff *= carl::pow(subResult.coefficient(), factor.second);
+				subResult.setCoefficient(constant_one<typename P::CoeffType>::get());
 				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult, factor.second));
 			}
 		}
-- 
2.43.0


From 53ea668ec3a5f295fa78b32fa7fec4b8f3239329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:12 +0000
Subject: [PATCH 132/141] fix: inequality of factorized polynomials that differ
 only in their coefficient

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index cb1b4b0..2b419a3 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -719,7 +719,7 @@ namespace carl
         }
         else if( _lhs.pCache() != nullptr && _rhs.pCache() != nullptr )
         {
-            return !(_lhs.content() == _rhs.content());
+            return _lhs.coefficient() != _rhs.coefficient() || !(_lhs.content() == _rhs.content());
         }
         return true;
     }
-- 
2.43.0


From 16596df1e2ca5b7b9311135627c06b3cd87240f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:34:48 +0000
Subject: [PATCH 133/141] fix: coprime factor without constant of products

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index 2b419a3..118e285 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -236,25 +236,9 @@ namespace carl
     {
         if( existsFactorization( *this ) )
         {
-            if( factorizedTrivially() )
-            {
-                assert( computePolynomial(*this).coprimeFactorWithoutConstant() == polynomial().coprimeFactorWithoutConstant() / mCoefficient );
-                return polynomial().coprimeFactorWithoutConstant() / mCoefficient;
-            }
-            auto factor = content().factorization().begin();
-            CoeffType cf = factor->first.coprimeFactorWithoutConstant();
-            auto resultNum = carl::getNum( cf );
-            auto resultDenom = carl::getDenom( cf );
-            ++factor;
-            while( factor != content().factorization().end() )
-            {
-                cf = factor->first.coprimeFactorWithoutConstant();
-                resultNum = carl::lcm( resultNum, carl::getNum( cf ) );
-                resultDenom = carl::gcd( resultDenom, carl::getDenom( cf ) );
-                ++factor;
-            }
-            assert( computePolynomial(*this).coprimeFactorWithoutConstant() == (resultNum / (mCoefficient*resultDenom)) );
-            return resultNum / (mCoefficient*resultDenom);
+            // The constant part of a product mixes all factors, thus we need the expanded polynomial.
+            assert( computePolynomial(*this).coprimeFactorWithoutConstant() == polynomial().coprimeFactorWithoutConstant() / mCoefficient );
+            return polynomial().coprimeFactorWithoutConstant() / mCoefficient;
         }
         return constant_zero<CoeffType>::get();
     }
-- 
2.43.0


From 4bf2429487f40c9a952d09cd3076c0e9a71a00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:38:14 +0000
Subject: [PATCH 134/141] fix: quotient of factorized polynomials with
 differently refined factorizations

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index 118e285..682cfa7 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -1024,7 +1024,11 @@ namespace carl
             assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
             return result;
         }
-        FactorizedPolynomial<P> result = lazyDiv( *this, _fdivisor ).first;
+        std::pair<FactorizedPolynomial<P>,FactorizedPolynomial<P>> quotients = lazyDiv( *this, _fdivisor );
+        FactorizedPolynomial<P> result = quotients.first;
+        // The common factors need not show up in the current factorizations.
+        if( !quotients.second.isConstant() )
+            result = FactorizedPolynomial<P>( carl::quotient( computePolynomial( quotients.first ), computePolynomial( quotients.second ) ), mpCache );
         assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
         return result;
     }
-- 
2.43.0


From 0a68938310e32aef933b66ef0e2aeb37a8cc2886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:41:06 +0000
Subject: [PATCH 135/141] fix: sign of a polynomial subtracted from a constant
 rational function

---
 src/carl-extpolys/RationalFunction.tpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 1a407d5..2616160 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -137,7 +137,7 @@ template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const Pol& rhs) {
 	if (this->isConstant()) {
 		CoeffType c = this->mNumberQuotient;
-		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(getDenom(c)) - CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
+		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(-getDenom(c)) + CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
@@ -158,9 +158,8 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(Variable rhs) {
 		Pol resultNum(rhs);
 		resultNum *= CoeffType(getDenom(c));
 		if (byInverse)
-			resultNum -= CoeffType(getNum(c));
-		else
-			resultNum += CoeffType(getNum(c));
+			resultNum *= CoeffType(-1);
+		resultNum += CoeffType(getNum(c));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
-- 
2.43.0


From 2bb57447b4a4b0eedc8977ccb95282a630aa11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:45:07 +0000
Subject: [PATCH 136/141] fix: exponents of factors that are refined while
 computing a gcd of factorized polynomials

---
 src/carl-extpolys/PolynomialFactorizationPair.h   | 3 +--
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.h b/src/carl-extpolys/PolynomialFactorizationPair.h
index 4a96ddf..e97546a 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.h
+++ b/src/carl-extpolys/PolynomialFactorizationPair.h
@@ -71,10 +71,9 @@ namespace carl
                     super::insert( _first, _last );
                 else
                 {
-                    typename super::iterator lastInserted = super::begin();
                     while( _first != _last )
                     {
-                        lastInserted = this->insert( lastInserted, *_first );
+                        this->insert( std::pair<FactorizedPolynomial<P>, carl::exponent>( _first->first, _first->second ) );
                         ++_first;
                     }
                 }
diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 07646a7..5be46ff 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -418,7 +418,8 @@ namespace carl
                 const Factorization<P>& currentFactorizationA = factorA.factorization();
                 if( currentFactorizationA.size() != 1 )
                 {
-                    factorizationA.insert( currentFactorizationA.begin(), currentFactorizationA.end() );
+                    for( const auto& part : currentFactorizationA )
+                        factorizationA.insert( std::pair<FactorizedPolynomial<P>, carl::exponent>( part.first, part.second * exponentA ) );
                     breaked = true;
                     break;
                 } else if ( currentFactorizationA.begin()->second > 1 ) {
@@ -434,7 +435,8 @@ namespace carl
                 const Factorization<P>& currentFactorizationB = factorB.factorization();
                 if( currentFactorizationB.size() != 1 )
                 {
-                    factorizationB.insert( currentFactorizationB.begin(), currentFactorizationB.end() );
+                    for( const auto& part : currentFactorizationB )
+                        factorizationB.insert( std::pair<FactorizedPolynomial<P>, carl::exponent>( part.first, part.second * exponentB ) );
                     continue;
                 } else if ( currentFactorizationB.begin()->second > 1 ) {
                     // Polynomial has exponent > 1
-- 
2.43.0


From dde5cfbe74198650ea72d0bfb047c66e931861d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:50:49 +0000
Subject: [PATCH 137/141] fix: factorizations that turn out to be a power of
 one factor

---
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 5be46ff..4d444c0 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -318,6 +318,11 @@ namespace carl
                 ft = mFactorization.erase(ft);
             }
         }
+        if( mpPolynomial == nullptr && mFactorization.size() == 1 )
+        {
+            // All factors turned out to be powers of one polynomial -> set polynomial
+            mpPolynomial = new P( computePolynomial( mFactorization ) );
+        }
         assert( assertFactorization() );
         return result;
     }
-- 
2.43.0


From ec6ac6631fd00168dc028af2e3d310de9803789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:54:43 +0000
Subject: [PATCH 138/141] fix: irreducibility of definite polynomials of higher
 degree

---
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 4d444c0..a85cdfa 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -339,8 +339,9 @@ namespace carl
             mIrreducible = 1;
             return true;
         }
+        // A product of two linear factors has a zero, but definite polynomials of higher degree can be reducible
         Definiteness definiteness = carl::definiteness(*mpPolynomial);
-        if ( definiteness == Definiteness::POSITIVE || definiteness == Definiteness::NEGATIVE )
+        if ( mpPolynomial->totalDegree() <= 2 && (definiteness == Definiteness::POSITIVE || definiteness == Definiteness::NEGATIVE) )
         {
             mIrreducible = 1;
             return true;
-- 
2.43.0


From a1f78048f1190b000ceaaa8abe1e199afa38bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:55:55 +0000
Subject: [PATCH 139/141] fix: factors skipped in the gcd of factorized
 polynomials after a refinement

---
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index a85cdfa..12e4583 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -568,7 +568,11 @@ namespace carl
                 }
             } //End of inner while
             if( breaked )
+            {
+                factorizationB.insert( _restB.begin(), _restB.end() );
+                _restB.clear();
                 continue;
+            }
             //Insert remaining factorA into rest
             if( !factorA.isOne() )
             {
-- 
2.43.0


From db51e0013d2d635fdc2c39ddff46db9710a24ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:08:31 +0000
Subject: [PATCH 140/141] fix: keep lvalues that a model value is constructed
 from

---
 src/carl-model/ModelValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-model/ModelValue.h b/src/carl-model/ModelValue.h
index 34106b6..b459b8d 100644
--- a/src/carl-model/ModelValue.h
+++ b/src/carl-model/ModelValue.h
@@ -96,7 +96,7 @@ namespace carl
 		ModelValue(const T& _t): mData(_t) {}
 
 		template<typename T, typename T2 = typename std::enable_if<convertible_to_variant<T, Super>::value, T>::type>
-		ModelValue(T&& _t): mData(std::move(_t)) {}
+		ModelValue(T&& _t): mData(std::forward<T>(_t)) {}
 		
 		template<typename ...Args>
 		ModelValue(const std::variant<Args...>& variant): mData(clone(variant)) {}
-- 
2.43.0


From 19cdd88ba3c09299022c0c768a7fb37d2fea26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:09:37 +0000
Subject: [PATCH 141/141] fix: stale values of substitutions after changing a
 model

---
 src/carl-model/Model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl-model/Model.h b/src/carl-model/Model.h
index fc5f130..e2e0ae9 100644
--- a/src/carl-model/Model.h
+++ b/src/carl-model/Model.h
@@ -87,6 +87,7 @@ namespace carl
 		}
 		typename Map::iterator erase(const typename Map::const_iterator& it) {
 			if (it == mData.end()) return mData.end();
+			resetCaches();
 			return mData.erase(it);
 		}
         void clean() {
@@ -122,11 +123,13 @@ namespace carl
 		}
 		template<typename T>
 		void assign(const typename Map::key_type& key, const T& t) {
+			resetCaches();
 			auto it = mData.find(key);
 			if (it == mData.end()) mData.emplace(key, t);
 			else it->second = t;
 		}
 		void update(const Model& model, bool disjoint = true) {
+			resetCaches();
 			for (const auto& m: model) {
 				auto res = mData.insert(m);
 				if (disjoint) {
-- 
2.43.0

