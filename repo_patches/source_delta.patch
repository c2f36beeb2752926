From a2a8e75abe601a4e12819cbb2ed5214dd93cd31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:18 +0000
Subject: [PATCH 01/17] fix: make tail_variate_impl::serialize accessible so
 sets caching tail variates can be archived

---
 .../boost/accumulators/statistics/tail_variate.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..40060da 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -59,6 +59,13 @@ namespace impl
             return this->do_result(some_tail(args));
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        { 
+            ar & variates;
+        }
+
     private:
         template<typename TailRng>
         result_type do_result(TailRng const &rng) const
@@ -70,13 +77,6 @@ namespace impl
             );
         }
 
-        // make this accumulator serializeable
-        template<class Archive>
-        void serialize(Archive & ar, const unsigned int file_version)
-        { 
-            ar & variates;
-        }
-
     private:
         std::vector<VariateType> variates;
     };
-- 
2.43.0


From 3657614b0c51abf0883454eab76bbe796bb73488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:18 +0000
Subject: [PATCH 02/17] fix: provide the serialize member missing from several
 accumulators

error_of<mean>, lazy weighted mean and variance, weighted skewness, kurtosis
and median, weighted tail quantile and tail mean, and the external, reference
and value accumulators had no serialize(), so accumulator_set::serialize did
not compile for any set holding one of them.
---
 .../framework/accumulators/external_accumulator.hpp        | 4 ++++
 .../framework/accumulators/reference_accumulator.hpp       | 4 ++++
 .../framework/accumulators/value_accumulator.hpp           | 7 +++++++
 include/boost/accumulators/statistics/error_of_mean.hpp    | 4 ++++
 .../boost/accumulators/statistics/weighted_kurtosis.hpp    | 4 ++++
 include/boost/accumulators/statistics/weighted_mean.hpp    | 4 ++++
 include/boost/accumulators/statistics/weighted_median.hpp  | 4 ++++
 .../boost/accumulators/statistics/weighted_skewness.hpp    | 4 ++++
 .../boost/accumulators/statistics/weighted_tail_mean.hpp   | 4 ++++
 .../accumulators/statistics/weighted_tail_quantile.hpp     | 4 ++++
 .../boost/accumulators/statistics/weighted_variance.hpp    | 4 ++++
 11 files changed, 47 insertions(+)

diff --git a/include/boost/accumulators/framework/accumulators/external_accumulator.hpp b/include/boost/accumulators/framework/accumulators/external_accumulator.hpp
index eb6965c..61b4206 100644
--- a/include/boost/accumulators/framework/accumulators/external_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/external_accumulator.hpp
@@ -37,6 +37,10 @@ namespace boost { namespace accumulators { namespace impl
             return this->extract_(args, args[parameter::keyword<Tag>::instance | 0]);
         }
 
+        // the external accumulator set is not owned, and so not serialized, here
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
+
     private:
 
         template<typename Args>
diff --git a/include/boost/accumulators/framework/accumulators/reference_accumulator.hpp b/include/boost/accumulators/framework/accumulators/reference_accumulator.hpp
index e50a751..b4d9472 100644
--- a/include/boost/accumulators/framework/accumulators/reference_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/reference_accumulator.hpp
@@ -40,6 +40,10 @@ namespace impl
             return this->ref;
         }
 
+        // the referent is not owned, and so not serialized, here
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
+
     private:
         reference_wrapper<Referent> ref;
     };
diff --git a/include/boost/accumulators/framework/accumulators/value_accumulator.hpp b/include/boost/accumulators/framework/accumulators/value_accumulator.hpp
index 148549b..53b0ee0 100644
--- a/include/boost/accumulators/framework/accumulators/value_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/value_accumulator.hpp
@@ -39,6 +39,13 @@ namespace impl
             return this->val;
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        { 
+            ar & val;
+        }
+
     private:
         ValueType val;
     };
diff --git a/include/boost/accumulators/statistics/error_of_mean.hpp b/include/boost/accumulators/statistics/error_of_mean.hpp
index 7cd923d..432f1c6 100644
--- a/include/boost/accumulators/statistics/error_of_mean.hpp
+++ b/include/boost/accumulators/statistics/error_of_mean.hpp
@@ -40,6 +40,10 @@ namespace impl
             extractor<Variance> const variance = {};
             return sqrt(numeric::fdiv(variance(args), count(args) - 1));
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_kurtosis.hpp b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
index 3fd4ed7..692e2d7 100644
--- a/include/boost/accumulators/statistics/weighted_kurtosis.hpp
+++ b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
@@ -70,6 +70,10 @@ namespace impl
                         * ( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    ) - 3.;
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_mean.hpp b/include/boost/accumulators/statistics/weighted_mean.hpp
index 3214af6..b27a1da 100644
--- a/include/boost/accumulators/statistics/weighted_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_mean.hpp
@@ -55,6 +55,10 @@ namespace impl
 
             return numeric::fdiv(some_weighted_sum(args), sum_of_weights(args));
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..5196aef 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -49,6 +49,10 @@ namespace impl
         {
             return weighted_p_square_quantile_for_median(args);
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_skewness.hpp b/include/boost/accumulators/statistics/weighted_skewness.hpp
index a3ac387..07b0145 100644
--- a/include/boost/accumulators/statistics/weighted_skewness.hpp
+++ b/include/boost/accumulators/statistics/weighted_skewness.hpp
@@ -66,6 +66,10 @@ namespace impl
                       * std::sqrt( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    );
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_mean.hpp b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
index bae8530..edb23d5 100644
--- a/include/boost/accumulators/statistics/weighted_tail_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
@@ -130,6 +130,10 @@ namespace impl
               , sum
             );
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..270d9aa 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -108,6 +108,10 @@ namespace impl
             // whereas the samples of the right tail are sorted in descending order
             return *(boost::begin(tail(args)) + n - 1);
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 } // namespace impl
 
diff --git a/include/boost/accumulators/statistics/weighted_variance.hpp b/include/boost/accumulators/statistics/weighted_variance.hpp
index f7d2b6e..a362391 100644
--- a/include/boost/accumulators/statistics/weighted_variance.hpp
+++ b/include/boost/accumulators/statistics/weighted_variance.hpp
@@ -52,6 +52,10 @@ namespace impl
             result_type tmp = some_mean(args);
             return accumulators::weighted_moment<2>(args) - tmp * tmp;
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version) {}
     };
 
     //! Iterative calculation of variance of weighted samples.
-- 
2.43.0


From 9694016b8d2e3f143d2b7a831e6b57bb44e8a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:18 +0000
Subject: [PATCH 03/17] fix: serialize the reference count of droppable
 accumulators

A dropped accumulator came back to life, and kept accumulating, in a set
restored from an archive.
---
 .../framework/accumulators/droppable_accumulator.hpp      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 21fdb51..b8a7672 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -157,6 +157,14 @@ namespace boost { namespace accumulators
             return 0 == this->ref_count_;
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            ar & ref_count_;
+        }
+
     private:
         int ref_count_;
     };
-- 
2.43.0


From 979511b6fd5c688ab7af408af41520b0f3614f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:09 +0000
Subject: [PATCH 04/17] fix: make extraction of rolling_window compile

rolling_window_impl::result named an extractor that is declared only further
down, so tag::rolling_window could not be extracted.
---
 include/boost/accumulators/statistics/rolling_window.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..4974b49 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -155,7 +155,8 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            extractor<tag::rolling_window_plus1> const some_window = {};
+            return some_window(args).advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From b5c88843ccafcceed72a875cde96fcf67fc9b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:35 +0000
Subject: [PATCH 05/17] fix: serialize the rolling window element by element

The two halves of a wrapped circular buffer were written as two binary blocks
but read back as one, which text archives do not allow: every restored window
that had wrapped around held garbage. The scratch buffer was also sizeof(T)
times too large and leaked when reading threw.
---
 .../statistics/rolling_window.hpp             | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 4974b49..6efa7be 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -32,10 +32,11 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    for(typename circular_buffer<T>::const_iterator it = b.begin(); it != b.end(); ++it)
+    {
+        const T item = *it;
+        ar << item;
+    }
 }
 
 template <class Archive, class T>
@@ -47,10 +48,12 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size*sizeof(T)];
-    ar.load_binary(buff, size*sizeof(T));
-    b.insert(b.begin(), buff, buff+size);
-    delete[] buff;
+    for(typename circular_buffer<T>::size_type i = 0; i < size; ++i)
+    {
+        T item = T();
+        ar >> item;
+        b.push_back(item);
+    }
 }
 
 template<class Archive, class T>
-- 
2.43.0


From 486ef4d20190e2f04c875f02ff7b8b4ddf21b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 06/17] fix: drop the dependencies of the accumulator that is
 actually dropped

accumulator_set::drop released the dependencies of the abstract feature, not
those add_ref'd at construction for the accumulator that provides it. Dropping
mean(immediate) released a sum it never held, and dropping a weighted feature
never released sum_of_weights.
---
 include/boost/accumulators/framework/accumulator_set.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..a5e720d 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,15 +430,11 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
-
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
 
         // Also drop accumulators that this feature depends on
-        typedef typename the_feature::dependencies dependencies;
+        typedef typename the_accumulator::feature_tag::dependencies dependencies;
         this->template visit_if<detail::contains_feature_of_<dependencies> >(
             detail::make_drop_visitor(boost::accumulators::accumulator = *this)
         );
-- 
2.43.0


From ddf849d137bb2d3d8c0c4d6c4ecb9de1920290f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 07/17] fix: restart the summation each time a density based
 median is recomputed

The running sum was kept from one extraction to the next, so pushing samples
after an extraction gave a wrong median (or ran off the histogram).
---
 include/boost/accumulators/statistics/median.hpp          | 1 +
 include/boost/accumulators/statistics/weighted_median.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..a32c805 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,6 +96,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = float_type(0);
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 5196aef..cbeaa31 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -97,6 +97,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = float_type(0);
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
-- 
2.43.0


From e56beeefafdca6efff9a9f0ec5fdb1cead788dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 08/17] fix: peaks over threshold fits overwrote the sums they
 are computed from

Extracting a fit replaced the accumulated sums by the mean and variance (and,
for the left tail, flipped the threshold probability), so samples pushed after
an extraction gave a wrong fit. The probability based flavours also marked the
cached fit as current when they returned NaN for lack of cached samples, and
returned a stale fit the next time.
---
 .../statistics/peaks_over_threshold.hpp       | 46 ++++++++---------
 .../weighted_peaks_over_threshold.hpp         | 49 ++++++++++---------
 2 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..7a43528 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,15 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -198,8 +198,8 @@ namespace impl
 
     private:
         std::size_t Nu_;                     // number of samples larger than threshold
-        mutable float_type mu_;              // mean of Nu_ largest samples
-        mutable float_type sigma2_;          // variance of Nu_ largest samples
+        float_type mu_;                      // sum of Nu_ largest samples
+        float_type sigma2_;                  // sum of squares of Nu_ largest samples
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
@@ -246,8 +246,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 std::size_t cnt = count(args);
 
                 // the n'th cached sample provides an approximate threshold value u
@@ -281,25 +279,29 @@ namespace impl
                     float_type u = *(tail(args).begin() + n - 1) * sign::value;
 
                     // compute mean and variance of samples above/under threshold value u
+                    float_type mu = this->mu_;
+                    float_type sigma2 = this->sigma2_;
                     for (std::size_t i = 0; i < n; ++i)
                     {
-                        mu_ += *(tail(args).begin() + i);
-                        sigma2_ += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
+                        mu += *(tail(args).begin() + i);
+                        sigma2 += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
                     }
 
-                    this->mu_ = sign::value * numeric::fdiv(this->mu_, n);
-                    this->sigma2_ = numeric::fdiv(this->sigma2_, n);
-                    this->sigma2_ -= this->mu_ * this->mu_;
+                    mu = sign::value * numeric::fdiv(mu, n);
+                    sigma2 = numeric::fdiv(sigma2, n);
+                    sigma2 -= mu * mu;
 
+                    float_type threshold_probability = this->threshold_probability_;
                     if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                        threshold_probability = 1. - threshold_probability;
 
-                    float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                    float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
-                    float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
@@ -321,9 +323,9 @@ namespace impl
         }
 
     private:
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial sum of samples above threshold u
+        float_type sigma2_;                         // initial sum of squares of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..12d7562 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,15 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -124,9 +124,9 @@ namespace impl
 
     private:
         short sign_;                         // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;              // mean of samples above threshold
-        mutable float_type sigma2_;          // variance of samples above threshold
-        mutable float_type w_sum_;           // sum of weights of samples above threshold
+        float_type mu_;                      // weighted sum of samples above threshold
+        float_type sigma2_;                  // weighted sum of squares of samples above threshold
+        float_type w_sum_;                   // sum of weights of samples above threshold
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
@@ -173,20 +173,20 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
 
                 std::size_t n = 0;
                 Weight sum = Weight(0);
+                float_type mu = this->mu_;
+                float_type sigma2 = this->sigma2_;
 
                 while (sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-                        mu_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
-                        sigma2_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
+                        mu += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
+                        sigma2 += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
                         sum += *(tail_weights(args).begin() + n);
                         n++;
                     }
@@ -213,20 +213,21 @@ namespace impl
                 float_type u = *(tail(args).begin() + n - 1) * this->sign_;
 
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, sum);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                mu = this->sign_ * numeric::fdiv(mu, sum);
+                sigma2 = numeric::fdiv(sigma2, sum);
+                sigma2 -= mu * mu;
 
+                float_type threshold_probability = this->threshold_probability_;
                 if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                    threshold_probability = 1. - threshold_probability;
 
-                float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
-
+                this->is_dirty_ = false;
             }
 
             return this->fit_parameters_;
@@ -234,9 +235,9 @@ namespace impl
 
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial sum of samples above threshold u
+        float_type sigma2_;                         // initial sum of squares of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
-- 
2.43.0


From 8beff7a0df55e8c692e8d8838397801745c3763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:09 +0000
Subject: [PATCH 09/17] fix: serialize the complete state of weighted peaks
 over threshold

weighted_peaks_over_threshold did not archive the sum of weights above the
threshold and passed a boost::tuple that cannot be archived;
weighted_peaks_over_threshold_prob had no serialize at all.
---
 .../weighted_peaks_over_threshold.hpp         | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 12d7562..8363578 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -117,8 +117,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
             ar & is_dirty_;
         }
 
@@ -233,6 +236,20 @@ namespace impl
             return this->fit_parameters_;
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            ar & sign_;
+            ar & mu_;
+            ar & sigma2_;
+            ar & threshold_probability_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
+            ar & is_dirty_;
+        }
+
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
         float_type mu_;                             // initial sum of samples above threshold u
-- 
2.43.0


From 2eb4f163b42dd9c9383667d32fda07632adefd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:50 +0000
Subject: [PATCH 10/17] fix: do not read before the first cached sample in tail
 estimators

With a quantile (or threshold) probability at the very edge of the tail the
rank is zero, and tail_quantile, weighted_tail_quantile and the probability
based peaks over threshold fits dereferenced begin() - 1.
---
 include/boost/accumulators/statistics/peaks_over_threshold.hpp  | 2 +-
 include/boost/accumulators/statistics/tail_quantile.hpp         | 2 +-
 .../accumulators/statistics/weighted_peaks_over_threshold.hpp   | 2 +-
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 7a43528..048efc7 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -256,7 +256,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n >= static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..0fb55ab 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( 0 < n && n < static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 8363578..5b99bbd 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -184,7 +184,7 @@ namespace impl
                 float_type mu = this->mu_;
                 float_type sigma2 = this->sigma2_;
 
-                while (sum < threshold)
+                while (sum < threshold || n == 0)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index 270d9aa..201e627 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -81,7 +81,7 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
-            while (sum < threshold)
+            while (sum < threshold || n == 0)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
                 {
-- 
2.43.0


From 2749de05ade0a8e755ac8c3bd480865ca29951c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:50 +0000
Subject: [PATCH 11/17] fix: weighted_tail_variate_means hung when too few
 samples were cached

The NaN results were filled in (before the result had its size) without ever
leaving the loop. Both flavours also dereferenced the first variate of an empty
tail.
---
 .../accumulators/statistics/tail_variate_means.hpp    |  2 +-
 .../statistics/weighted_tail_variate_means.hpp        | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..1842f5c 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -98,7 +98,7 @@ namespace impl
                 )
             );
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..c9dc478 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -123,6 +123,11 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
+
+            this->tail_means_.clear();
+            this->tail_means_.resize(num_variates, Sample(0));
+
             while (sum < threshold)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
@@ -139,6 +144,7 @@ namespace impl
                           , this->tail_means_.end()
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,11 +155,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
-
-            this->tail_means_.clear();
-            this->tail_means_.resize(num_variates, Sample(0));
-
             this->tail_means_ = std::inner_product(
                 tail_variate(args).begin()
               , tail_variate(args).begin() + n
-- 
2.43.0


From eb6815609dfb9755780e6529dcde0aac5ae5e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:50 +0000
Subject: [PATCH 12/17] fix: coherent tail mean of the left tail lacked part of
 its correction term

The conditional operator swallowed the subtraction, so the documented
(alpha - ceil(n alpha) / n) was just alpha for the left tail.
---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From 5f80805218762f19c00d47e26f3643649bcb3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 13/17] fix: accumulators a selected variant depends on must
 precede its dependents

When a variant was selected in place of the declared dependency of a feature
(e.g. rolling_mean(lazy) for immediate_rolling_mean), the features the variant
itself depends on could be placed after the dependent feature, which then read
values from before the current sample:
stats<rolling_variance, rolling_sum, rolling_mean(lazy)> gave a wrong variance.
---
 .../accumulators/framework/depends_on.hpp     | 51 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index e0036ac..5129f37 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_FRAMEWORK_DEPENDS_ON_HPP_EAN_28_10_2005
 
 #include <boost/version.hpp>
+#include <boost/mpl/at.hpp>
 #include <boost/mpl/end.hpp>
 #include <boost/mpl/map.hpp>
 #include <boost/mpl/set.hpp>
@@ -18,12 +19,14 @@
 #include <boost/mpl/sort.hpp>
 #include <boost/mpl/insert.hpp>
 #include <boost/mpl/assert.hpp>
+#include <boost/mpl/eval_if.hpp>
 #include <boost/mpl/remove.hpp>
 #include <boost/mpl/vector.hpp>
 #include <boost/mpl/inherit.hpp>
 #include <boost/mpl/identity.hpp>
 #include <boost/mpl/equal_to.hpp>
 #include <boost/mpl/contains.hpp>
+#include <boost/mpl/push_back.hpp>
 #include <boost/mpl/transform.hpp>
 #include <boost/mpl/is_sequence.hpp>
 #include <boost/mpl/placeholders.hpp>
@@ -404,6 +407,42 @@ namespace boost { namespace accumulators
         {
         };
 
+        // Append a feature to a vector of features, preceded by whichever of its
+        // dependencies are still missing from the vector. Dependencies are looked up in
+        // the map, because a variant may have been selected to provide them.
+        template<typename FeatureMap, typename Weight>
+        struct append_after_dependencies
+        {
+            template<typename Vector, typename Feature>
+            struct append
+              : mpl::push_back<
+                    typename mpl::fold<
+                        as_feature_list<typename Feature::dependencies, Weight>
+                      , Vector
+                      , append_after_dependencies<FeatureMap, Weight>
+                    >::type
+                  , Feature
+                >
+            {
+            };
+
+            template<typename Vector, typename Feature>
+            struct apply
+            {
+                typedef
+                    typename mpl::at<FeatureMap, typename feature_of<Feature>::type>::type
+                provider;
+
+                typedef
+                    typename mpl::eval_if<
+                        typename mpl::contains<Vector, provider>::type
+                      , mpl::identity<Vector>
+                      , append<Vector, provider>
+                    >::type
+                type;
+            };
+        };
+
         template<typename Features, typename Sample, typename Weight>
         struct make_accumulator_tuple
         {
@@ -445,10 +484,20 @@ namespace boost { namespace accumulators
                 >::type
             sorted_feature_vector;
 
+            // The sort does not see the dependencies of a variant that stands in for the
+            // declared dependency of a feature; make sure they come first, too
+            typedef
+                typename mpl::fold<
+                    sorted_feature_vector
+                  , mpl::vector0<>
+                  , append_after_dependencies<feature_map_with_dependencies, Weight>
+                >::type
+            ordered_feature_vector;
+
             // From the vector of features, construct a vector of accumulators
             typedef
                 typename mpl::transform<
-                    sorted_feature_vector
+                    ordered_feature_vector
                   , to_accumulator<mpl::_1, Sample, Weight>
                 >::type
             type;
-- 
2.43.0


From a679adbb3b31590f69e761fef00d0ef69d67b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:31 +0000
Subject: [PATCH 14/17] fix: droppable tail variates and weights were never
 stored

tail_impl recognised the tail variates and weights of its set by their feature; a
droppable one has the feature droppable<...> and was passed over, so its values
stayed at their initial state.
---
 include/boost/accumulators/statistics/tail.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail.hpp b/include/boost/accumulators/statistics/tail.hpp
index 40dab37..cf516f9 100644
--- a/include/boost/accumulators/statistics/tail.hpp
+++ b/include/boost/accumulators/statistics/tail.hpp
@@ -228,7 +228,9 @@ namespace impl
             template<typename T>
             struct apply
               : detail::is_tail_variate_feature<
-                    typename detail::feature_tag<T>::type
+                    typename detail::undroppable<
+                        typename detail::feature_tag<T>::type
+                    >::type
                   , LeftRight
                 >
             {};
-- 
2.43.0


From d3eb7481454ed637ae44559c0387078f7b6dfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:31 +0000
Subject: [PATCH 15/17] fix: median from the P-square distribution interpolated
 the wrong cell

The cumulative distribution crosses one half between the marker before the first one
that reaches it and that marker; the heights used were those of the next cell.
---
 include/boost/accumulators/statistics/median.hpp     | 12 ++++++++++--
 .../accumulators/statistics/weighted_median.hpp      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index a32c805..5ab47fc 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -169,8 +169,16 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    // the distribution crosses 0.5 between the markers it - 1 and it
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index cbeaa31..a9b1176 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -170,8 +170,16 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    // the distribution crosses 0.5 between the markers it - 1 and it
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From 7480efe72e4fc962791474226b2055b2bfc85f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:31 +0000
Subject: [PATCH 16/17] fix: positions of the weighted P-square distribution

The initial position of the last marker was not accumulated and the desired positions
were those of the previous marker (the index counts from zero).
---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From 3766d72782eda9fe59c3bae061d2678ac31073e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:34 +0000
Subject: [PATCH 17/17] fix: initialise the immediate mean of variates and
 weights from their own parameter, not from the sample

---
 include/boost/accumulators/statistics/mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/mean.hpp b/include/boost/accumulators/statistics/mean.hpp
index 699fad7..9851792 100644
--- a/include/boost/accumulators/statistics/mean.hpp
+++ b/include/boost/accumulators/statistics/mean.hpp
@@ -56,7 +56,7 @@ namespace impl
 
         template<typename Args>
         immediate_mean_impl(Args const &args)
-          : mean(numeric::fdiv(args[sample | Sample()], numeric::one<std::size_t>::value))
+          : mean(numeric::fdiv(args[parameter::keyword<Tag>::get() | Sample()], numeric::one<std::size_t>::value))
         {
         }
 
-- 
2.43.0

