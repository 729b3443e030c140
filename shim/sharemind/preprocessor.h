// Stand-in for the SharemindCHeaders header of the same name, which is not available offline.
#pragma once
#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#define SHAREMIND_C(a, b) BOOST_PP_CAT(a, b)
#define SHAREMIND_T(n, i, t) BOOST_PP_TUPLE_ELEM(n, i, t)
#define SHAREMIND_C3(a, b, c) BOOST_PP_CAT(BOOST_PP_CAT(a, b), c)
