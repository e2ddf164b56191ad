// matrices read from files; the files live in a directory of their own
// flags: -fno-sanitize=null
#include "hooks.h"
#include <fstream>
#include <sstream>
#include <complex>
#include <unistd.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/serialization/base_object.hpp>
#include "BrainTwister/Record.h"
#undef BRAINTWISTER_RECORD
#define REC_INIT(r, Name, elem) BOOST_PP_TUPLE_ELEM(3, 1, elem) = t.get(std::string(#Name "." BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, elem))), BOOST_PP_TUPLE_ELEM(3, 1, elem));
template <class T> struct rec_ { static void get(boost::property_tree::ptree const& t, const char* n, T& x) {} };
template <> struct rec_<size_t> { static void get(boost::property_tree::ptree const& t, const char* n, size_t& x) { x = t.get(n, x); } };
template <> struct rec_<std::string> { static void get(boost::property_tree::ptree const& t, const char* n, std::string& x) { x = t.get(n, x); } };
#define REC_READ(r, Name, elem) rec_<BOOST_PP_TUPLE_ELEM(3, 0, elem)>::get(t, "settings." BOOST_PP_STRINGIZE(BOOST_PP_TUPLE_ELEM(3, 1, elem)), BOOST_PP_TUPLE_ELEM(3, 1, elem));
#define BRAINTWISTER_RECORD(Name, Seq) \
    struct Name { \
        Name() {} \
        explicit Name(boost::property_tree::ptree const& t) { BOOST_PP_SEQ_FOR_EACH(REC_READ, Name, Seq) } \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_MEMBER, _, Seq) \
        BOOST_PP_SEQ_FOR_EACH(BT_STUB_SETTER, Name, Seq) \
    };
#include "common.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#undef FAIL
#define FAIL FAIL_
static char g_dir[] = "/tmp/vc_fileio_XXXXXX";
static std::string g_file;
static void clean() { unlink(g_file.c_str()); rmdir(g_dir); }
static void FAIL_(const char* f, ...) { clean(); char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("FAIL %s\n", b); drv_die(); _exit(2); }
template <class M, class T> static void one(const char* what, size_t nr, size_t nc, size_t rld, size_t cld, size_t ro, size_t co, std::vector<T> const& file, bool own)
{
    std::ostringstream x; x << "<settings><nbRows>" << nr << "</nbRows><nbColumns>" << nc << "</nbColumns><rowLeadingDimension>" << rld << "</rowLeadingDimension><columnLeadingDimension>" << cld
        << "</columnLeadingDimension><rowOffset>" << ro << "</rowOffset><columnOffset>" << co << "</columnOffset><filename>" << g_file << "</filename></settings>";
    std::istringstream is(x.str());
    bool err = false, want = nr + ro > rld || nc + co > cld || (nr && nc && (co + nc - 1) * rld + ro + nr > file.size());
    M m; if (own) m.resize(nr, nc);
    try { is >> m; } catch (std::exception const&) { err = true; }
    if (err != want) FAIL("%s: %s", what, err ? "error" : "no error");
    if (err) return;
    if (m.getNbRows() != nr || m.getNbColumns() != nc) FAIL("%s: shape %zu x %zu", what, size_t(m.getNbRows()), size_t(m.getNbColumns()));
    for (size_t j = 0; j < nc; ++j) for (size_t i = 0; i < nr; ++i) if (!(m(i, j) == file[(co + j) * rld + ro + i])) FAIL("%s: element (%zu,%zu) is %g, not %g", what, i, j, double(m(i, j)), double(file[(co + j) * rld + ro + i]));
}
template <class T> static void all(const char* what)
{
    size_t nr = Z(6), nc = Z(6), ro = ::R(0, 2) ? ::R(0, 3) : 0, co = ::R(0, 2) ? ::R(0, 3) : 0;
    size_t rld = nr + ro + (::R(0, 1) ? ::R(0, 3) : 0), cld = nc + co + (::R(0, 1) ? ::R(0, 3) : 0);
    if (::R(0, 19) == 0 && rld) rld = ::R(0, rld); if (::R(0, 19) == 0 && cld) cld = ::R(0, cld);
    size_t n = rld * cld; if (::R(0, 5) == 0) n = ::R(0, n); else if (::R(0, 5) == 0) n += ::R(0, 4);
    std::vector<T> f(n); for (size_t i = 0; i < n; ++i) f[i] = T(::R(-99, 99)) + T(i) / 1024;
    CASE("%s %zu x %zu at (%zu,%zu) of %zu x %zu, %zu elements in the file", what, nr, nc, ro, co, rld, cld, n);
    { std::ofstream o(g_file, std::ofstream::binary); o.write((char const*)f.data(), n * sizeof(T)); }
    one<Matrix<Dense, T>>("column-major", nr, nc, rld, cld, ro, co, f, ::R(0, 1));
    one<Matrix<Dense, T, Parameter<size_t, RowMajor>>>("row-major", nr, nc, rld, cld, ro, co, f, ::R(0, 1));
}
static void c31()
{
    if (!mkdtemp(g_dir)) { printf("no scratch directory\n"); _exit(3); }
    g_file = std::string(g_dir) + "/matrix";
    while (more()) { all<double>("double"); all<float>("float"); }
    CASE("a missing file"); unlink(g_file.c_str());
    { bool err = false; MD m; std::istringstream is("<settings><nbRows>0</nbRows><filename>" + g_file + "</filename></settings>"); try { is >> m; } catch (std::exception const&) { err = true; } if (!err) FAIL("no error"); }
    clean();
}
int main(int c, char** v) { return drv_main(c, v, {{"C31", c31}}); }
