#pragma once
// Stand-in for BrainTwister/Record.h: BRAINTWISTER_RECORD(Name, ((type, member, default))...)
// defines an aggregate with public members, default values and chaining set_<member>().
#include <boost/preprocessor.hpp>
#include <boost/property_tree/ptree.hpp>
#include <string>
#define BT_STUB_MEMBER(r, data, elem) \
    BOOST_PP_TUPLE_ELEM(3, 0, elem) BOOST_PP_TUPLE_ELEM(3, 1, elem) = BOOST_PP_TUPLE_ELEM(3, 2, elem);
#define BT_STUB_SETTER(r, Name, elem) \
    Name& BOOST_PP_CAT(set_, BOOST_PP_TUPLE_ELEM(3, 1, elem))(BOOST_PP_TUPLE_ELEM(3, 0, elem) const& v) \
    { BOOST_PP_TUPLE_ELEM(3, 1, elem) = v; return *this; }
#define BRAINTWISTER_RECORD(Name, Seq) \
    struct Name { \
        Name() {} \
        explicit Name(boost::property_tree::ptree const&) {} \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_MEMBER, _, Seq) \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_SETTER, Name, Seq) \
    };
#define BRAINTWISTER_RECORD_DERIVED(Name, Base, Seq) BRAINTWISTER_RECORD(Name, Seq)
