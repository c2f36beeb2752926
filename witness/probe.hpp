// Probe accumulators: they record what the framework delivers to an accumulator.
#ifndef VERIF_PROBE_HPP
#define VERIF_PROBE_HPP
#include "common.hpp"
#include <boost/preprocessor/repetition/repeat_from_to.hpp>
#include <boost/preprocessor/cat.hpp>
namespace pr {
using namespace boost::accumulators;
namespace ptag {}
#define PK(z, n, _) BOOST_PARAMETER_KEYWORD(ptag, BOOST_PP_CAT(k, n))
BOOST_PP_REPEAT_FROM_TO(1, 17, PK, _)

#define PF(z, n, _) double BOOST_PP_CAT(i, n); double BOOST_PP_CAT(a, n);
#define PI(z, n, _) , BOOST_PP_CAT(i, n)(args[BOOST_PP_CAT(k, n) | -1.0]), BOOST_PP_CAT(a, n)(-2.0)
#define PU(z, n, _) BOOST_PP_CAT(a, n) = args[BOOST_PP_CAT(k, n) | -1.0];
#define PR(z, n, _) + n * 100 * args[BOOST_PP_CAT(k, n) | -1.0]
#define PG(z, n, _) double BOOST_PP_CAT(get_a, n)(S const &s) { return find_accumulator<F>(s).BOOST_PP_CAT(a, n); } double BOOST_PP_CAT(get_i, n)(S const &s) { return find_accumulator<F>(s).BOOST_PP_CAT(i, n); }

// records every argument
struct probe_impl : accumulator_base
{
    typedef double result_type;
    template<class Args> probe_impl(Args const &args)
      : hits(0), is(args[sample | -1.0]), iw(args[weight | -1.0]), x(-2.0), w(-2.0)
        BOOST_PP_REPEAT_FROM_TO(1, 16, PI, _) {}
    template<class Args> void operator()(Args const &args)
    {
        ++hits;
        x = args[sample | -1.0];
        w = args[weight | -1.0];
        BOOST_PP_REPEAT_FROM_TO(1, 16, PU, _)
    }
    template<class Args> result_type result(Args const &args) const
    {
        return 7 * args[sample | -1.0] + 11 * args[weight | -1.0] BOOST_PP_REPEAT_FROM_TO(1, 16, PR, _);
    }
    double hits, is, iw, x, w;
    BOOST_PP_REPEAT_FROM_TO(1, 16, PF, _)
};

// counts its updates and remembers the counts of those it depends on
struct none {};
template<class Args, class F> struct peek { static double hits(Args const &args) { return find_accumulator<F>(args[accumulator]).hits; } };
template<class Args> struct peek<Args, none> { static double hits(Args const &) { return 0; } };
template<class D1 = none, class D2 = none, class D3 = none>
struct node_impl : accumulator_base
{
    typedef double result_type;
    template<class Args> node_impl(Args const &args) : hits(0), d1(0), d2(0), d3(0), x(0) {}
    template<class Args> void operator()(Args const &args)
    {
        ++hits;
        d1 = peek<Args, D1>::hits(args);
        d2 = peek<Args, D2>::hits(args);
        d3 = peek<Args, D3>::hits(args);
        x = args[sample];
    }
    template<class Args> result_type result(Args const &args) const { return hits; }
    template<class Archive> void serialize(Archive &ar, const unsigned int) { ar & hits & d1 & d2 & d3 & x; }
    double hits, d1, d2, d3, x;
};
namespace ptag {
struct P : depends_on<> { typedef boost::mpl::always<probe_impl> impl; };
struct Q : depends_on<> { typedef boost::mpl::always<probe_impl> impl; };
struct DP : depends_on<P, boost::accumulators::tag::count> { typedef boost::mpl::always<probe_impl> impl; };
template<class T> struct TP : depends_on<> { typedef boost::mpl::always<probe_impl> impl; };
struct A : depends_on<> { typedef boost::mpl::always<node_impl<> > impl; };
struct Z : depends_on<> { typedef boost::mpl::always<node_impl<> > impl; };
struct Y : depends_on<Z> { typedef boost::mpl::always<node_impl<Z> > impl; };
struct B : depends_on<A> { typedef boost::mpl::always<node_impl<A> > impl; };
struct B2 : depends_on<Y> { typedef boost::mpl::always<node_impl<Y> > impl; };
struct C : depends_on<B> { typedef boost::mpl::always<node_impl<B> > impl; };
struct D : depends_on<B, C> { typedef boost::mpl::always<node_impl<B, C> > impl; };
struct E : depends_on<D, A> { typedef boost::mpl::always<node_impl<D, A> > impl; };
struct G : depends_on<A, B, Z> { typedef boost::mpl::always<node_impl<A, B, Z> > impl; };
struct H : depends_on<E, G> { typedef boost::mpl::always<node_impl<E, G> > impl; };
// a ladder: the number of references to L0 doubles with every rung
struct L0 : depends_on<> { typedef boost::mpl::always<node_impl<> > impl; };
#define PL(n, m) struct M##m : depends_on<L##m> { typedef boost::mpl::always<node_impl<L##m> > impl; }; struct L##n : depends_on<L##m, M##m> { typedef boost::mpl::always<node_impl<L##m, M##m> > impl; };
PL(1, 0) PL(2, 1) PL(3, 2) PL(4, 3) PL(5, 4) PL(6, 5) PL(7, 6) PL(8, 7) PL(9, 8)
}
namespace px {
extractor<ptag::P> const P = {};
BOOST_ACCUMULATORS_DEFINE_EXTRACTOR(ptag, TP, (typename))
}
}
namespace boost { namespace accumulators {
template<> struct feature_of<pr::ptag::B2> : feature_of<pr::ptag::B> {};
}}
#endif
