// Concrete witnesses of the defects repaired by the "fix:" commits in /repo.  Not part of any check.
//   g++ -w -I<repo>/include -DDEFECT=<n> defects.cpp -lboost_serialization && timeout 5 ./a.out   (exit 0 = behaves as documented)
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_variate_means.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <sstream>
#include <iostream>
#include <cmath>
#include <cstdlib>
using namespace boost::accumulators;
template<class S> void copy_via_archive(S&a,S&b){std::stringstream s;{boost::archive::text_oarchive o(s);a.serialize(o,0);}boost::archive::text_iarchive i(s);b.serialize(i,0);}
#define CHECK(x) do{ if(!(x)){std::cout<<"FAILED: " #x "\n";std::exit(1);} }while(0)
bool near(double a,double b){return std::fabs(a-b)<=1e-9*(1+std::fabs(b));}
int main(){
#if DEFECT==1 // serialization of tail variates (does not compile on the original tree)
  accumulator_set<double,stats<tag::tail_variate<double,tag::covariate1,right>>> a(tag::tail<right>::cache_size=3),b(tag::tail<right>::cache_size=3);
  a(1.,covariate1=2.); copy_via_archive(a,b); CHECK(*tail_variate(b).begin()==2.);
#elif DEFECT==2 // serialization of lazy weighted mean (does not compile)
  accumulator_set<double,stats<tag::mean>,double> a,b; a(3.,weight=2.); copy_via_archive(a,b); CHECK(mean(b)==3.);
#elif DEFECT==3 // droppable ref count lost
  accumulator_set<double,stats<droppable<tag::sum>>> a,b; a(1.); a.drop<tag::sum>(); copy_via_archive(a,b); b(5.); CHECK(sum(b)==1.);
#elif DEFECT==4 // rolling_window extraction (does not compile)
  accumulator_set<double,stats<tag::rolling_window>> a(tag::rolling_window::window_size=2); a(1.);a(2.);a(3.); CHECK(rolling_window(a).size()==2);
#elif DEFECT==5 // wrapped rolling window, text archive
  accumulator_set<double,stats<tag::rolling_mean>> a(tag::rolling_window::window_size=2),b(tag::rolling_window::window_size=2);
  for(int i=0;i<5;++i)a(i+.5); copy_via_archive(a,b); a(9.);b(9.); CHECK(near(rolling_mean(a),rolling_mean(b)));
#elif DEFECT==6 // drop of an immediate mean must not release sum
  accumulator_set<double,stats<droppable<tag::mean(immediate)>,droppable<tag::sum>>> a; a(1.); a.drop<tag::mean>(); a(5.); CHECK(sum(a)==6.);
#elif DEFECT==7 // density median after extract-push-extract
  typedef accumulator_set<double,stats<tag::median(with_density)>> S; S a(density_cache_size=10,density_num_bins=8),b(density_cache_size=10,density_num_bins=8);
  for(int i=0;i<100;++i){a(i%11);b(i%11);if(i==50)(void)median(a);} CHECK(near(median(a),median(b)));
#elif DEFECT==8 // POT after extract-push-extract
  typedef accumulator_set<double,stats<tag::pot_quantile<right>(with_threshold_value)>> S; S a(pot_threshold_value=50.),b(pot_threshold_value=50.);
  for(int i=0;i<100;++i){a(i);b(i);if(i==70)(void)quantile(a,quantile_probability=.99);} CHECK(near(quantile(a,quantile_probability=.99),quantile(b,quantile_probability=.99)));
#elif DEFECT==9 // weighted POT state in archive (does not compile)
  typedef accumulator_set<double,stats<tag::weighted_pot_quantile<right>(with_threshold_value)>,double> S; S a(pot_threshold_value=50.),b(pot_threshold_value=50.);
  for(int i=0;i<100;++i)a(i,weight=1.); copy_via_archive(a,b); CHECK(near(quantile(a,quantile_probability=.99),quantile(b,quantile_probability=.99)));
#elif DEFECT==10 // rank zero
  accumulator_set<double,stats<tag::tail_quantile<left>>> a(tag::tail<left>::cache_size=5); for(int i=0;i<9;++i)a(i+1.); CHECK(std::isnan(quantile(a,quantile_probability=0.)));
#elif DEFECT==11 // hang
  accumulator_set<double,stats<tag::weighted_tail_variate_means<right,std::vector<double>,tag::covariate1>(absolute)>,double> a(tag::tail<right>::cache_size=2);
  for(int i=0;i<9;++i)a(i+1.,weight=1.,covariate1=std::vector<double>(2,1.)); auto r=weighted_tail_variate_means(a,quantile_probability=.1); CHECK(r.size()==2&&std::isnan(r[0]));
#elif DEFECT==12 // left coherent tail mean
  accumulator_set<double,stats<tag::coherent_tail_mean<left>,tag::tail_quantile<left>>> a(tag::tail<left>::cache_size=100); for(int i=0;i<10;++i)a(i+1.);
  CHECK(near(coherent_tail_mean(a,quantile_probability=.25), 2.+3./3*(.25-.3)));
#elif DEFECT==13 // order of a dependent and the variant it selects
  accumulator_set<double,stats<tag::rolling_variance,tag::rolling_sum,tag::rolling_mean(lazy)>> a(tag::rolling_window::window_size=3);
  double xs[]={1,5,2,9,4}; for(double x:xs)a(x); CHECK(near(rolling_variance(a),13.));
#elif DEFECT==14 // droppable tail variate
  accumulator_set<double,stats<droppable<tag::tail_variate<double,tag::covariate1,right>>>> a(tag::tail<right>::cache_size=3);
  a(1.,covariate1=2.); CHECK(*tail_variate(a).begin()==2.);
#elif DEFECT==15 // median from the P-square distribution
  accumulator_set<double,stats<tag::median(with_p_square_cumulative_distribution)>> a(p_square_cumulative_distribution_num_cells=5);
  for(int i=0;i<6;++i)a(-i); CHECK(near(median(a),-3.));
#elif DEFECT==16 // weighted P-square distribution reaches one
  accumulator_set<double,stats<tag::weighted_p_square_cumulative_distribution>,double> a(p_square_cumulative_distribution_num_cells=5);
  for(int i=0;i<6;++i)a(-i,weight=1.+i); CHECK(near(weighted_p_square_cumulative_distribution(a)[5].second,1.));
#elif DEFECT==17 // KNOWN, not repaired: means of two variates share one sum
  accumulator_set<double,stats<tag::mean_of_variates<double,tag::covariate2>,tag::mean_of_variates<double,tag::covariate1>>> a;
  a(1.,covariate1=2.,covariate2=7.); CHECK(near((extract_result<tag::mean_of_variates<double,tag::covariate1>>(a)),2.));
#elif DEFECT==18 // immediate mean of a vector variate takes its shape from the variate
  accumulator_set<double,stats<tag::immediate_mean_of_variates<std::vector<double>,tag::covariate1>>> a(covariate1=std::vector<double>(2));
  a(1.,covariate1=std::vector<double>(2,3.)); CHECK((extract_result<tag::immediate_mean_of_variates<std::vector<double>,tag::covariate1>>(a).size())==2);
#endif
}
