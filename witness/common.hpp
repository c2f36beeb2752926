// Instantiation witnesses: they are parsed and resolved by the analyser, never executed.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include <vector>
#include <valarray>
#include <complex>
#include <boost/mpl/bool.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/p_square_cumulative_distribution.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumulative_distribution.hpp>
#include <boost/accumulators/framework/accumulators/droppable_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/external_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/reference_accumulator.hpp>
#include <boost/accumulators/framework/accumulators/value_accumulator.hpp>

// archives whose operations are recorded by the analyser
struct sa_oarchive
{
    typedef boost::mpl::true_ is_saving;
    typedef boost::mpl::false_ is_loading;
    template<class T> sa_oarchive &operator&(T const &);
    template<class T> sa_oarchive &operator<<(T const &);
};
struct sa_iarchive
{
    typedef boost::mpl::false_ is_saving;
    typedef boost::mpl::true_ is_loading;
    template<class T> sa_iarchive &operator&(T &);
    template<class T> sa_iarchive &operator>>(T &);
};
namespace witness {
using namespace boost::accumulators;
typedef std::vector<double> VD;
}
#endif
