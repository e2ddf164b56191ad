// reading a matrix from a file.  The settings and the file are stand-ins: the settings
// are arguments, the file is an array with a position; a read beyond its end gives what
// there is and leaves the stream in an error state
#ifndef VC_T
#define VC_T double
#define VC_N(x) x
#endif
#include <fstream>
#include <istream>
#include <complex>
#include <boost/serialization/base_object.hpp>
#define BOOST_PROPERTY_TREE_PTREE_HPP_INCLUDED
#define BOOST_PROPERTY_TREE_XML_PARSER_HPP_INCLUDED
namespace boost { namespace property_tree { struct ptree {}; inline void read_xml(std::istream&, ptree&) {} } }
#include "BrainTwister/Record.h"
#undef BRAINTWISTER_RECORD
// a record read from a tree gets its members, in the order of their declaration, from
// vc_setting(0), vc_setting(1), ..
struct vc_name { vc_name(const char*) {} vc_name(size_t) {} };
inline const char* operator+(const char* s, vc_name const&) { return s; }
template <class T> struct vc_record { typedef T type; };
template <> struct vc_record<std::string> { typedef vc_name type; };
extern "C" size_t vc_setting(int);
#define VC_MEMBER(r, data, i, elem) vc_record<BOOST_PP_TUPLE_ELEM(3, 0, elem)>::type BOOST_PP_TUPLE_ELEM(3, 1, elem) = BOOST_PP_TUPLE_ELEM(3, 2, elem);
#define VC_INIT(r, data, i, elem) BOOST_PP_COMMA_IF(i) BOOST_PP_TUPLE_ELEM(3, 1, elem)(vc_setting(i))
#define BRAINTWISTER_RECORD(Name, Seq) \
    struct Name { \
        Name() {} \
        explicit Name(boost::property_tree::ptree const&) : BOOST_PP_SEQ_FOR_EACH_I(VC_INIT, _, Seq) {} \
        BOOST_PP_SEQ_FOR_EACH_I(VC_MEMBER, _, Seq) \
    };
extern "C" {
bool vc_no_file();
size_t vc_file_size();
void const* vc_file();
}
namespace std {
struct vc_ifstream {
    size_t pos, got; bool err;
    typedef char char_type;
    typedef ios_base::openmode openmode; typedef ios_base::seekdir seekdir; typedef long pos_type; typedef long off_type;
    static constexpr openmode binary = ios_base::binary, in = ios_base::in, ate = ios_base::ate;
    static constexpr seekdir cur = ios_base::cur, beg = ios_base::beg, end = ios_base::end;
    vc_ifstream() : pos(0), got(0), err(false) {}
    vc_ifstream(vc_name const&, openmode = in) : pos(0), got(0), err(vc_no_file()) {}
    vc_ifstream(string const&) {}
    void open(vc_name const&, openmode = in) { err = vc_no_file(); }
    bool operator!() const { return err; }
    explicit operator bool() const { return !err; }
    operator istream&() const;
    vc_ifstream& seekg(long off, seekdir d) { pos = d == ios_base::beg ? off : d == ios_base::end ? vc_file_size() + off : pos + off; return *this; }
    vc_ifstream& seekg(long off) { pos = off; return *this; }
    vc_ifstream& ignore(long n) { pos += n; return *this; }
    long tellg() const { return err ? -1 : long(pos); }
    long gcount() const { return got; }
    bool fail() const { return err; }
    bool bad() const { return err; }
    bool good() const { return !err; }
    bool is_open() const { return !vc_no_file(); }
    void close() {}
    vc_ifstream& read(char* p, long n)
    {
        VC_T* d = (VC_T*)p; VC_T const* s = (VC_T const*)((char const*)vc_file() + pos);
        got = 0;
        if (err || (n > 0 && pos + n > vc_file_size())) err = true;
        else { size_t m = n / sizeof(VC_T); for (size_t k = 0; k < m; ++k) d[k] = s[k]; got = n; }
        pos += n;
        return *this;
    }
};
}
#define ifstream vc_ifstream
#include "BlasBooster/Core/DenseMatrix.h"
using namespace BlasBooster;
extern "C" void vc_dense(VC_T const*, size_t, size_t, size_t);
#define ENTRY extern "C" __attribute__((used)) void
typedef Matrix<Dense, VC_T> M_;
typedef Matrix<Dense, VC_T, Parameter<size_t, RowMajor>> R_;
ENTRY VC_N(vc_file_read)(size_t r, size_t c, VC_T* a, std::istream& is) { M_ M(r, c, a); is >> M; vc_dense(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getSize()); }
ENTRY VC_N(vc_file_row)(size_t r, size_t c, VC_T* a, std::istream& is) { R_ M(r, c, a); is >> M; vc_dense(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getSize()); }
ENTRY VC_N(vc_file_new)(std::istream& is) { M_ M; is >> M; vc_dense(M.getDataPointer(), M.getNbRows(), M.getNbColumns(), M.getSize()); }
