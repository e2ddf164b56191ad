// zero and composite matrices in algebra
// flags: -fno-sanitize=null
#include "hooks.h"
extern "C" bool vc_accept(double) { return true; }
static std::vector<Seen> g_sp;
#include "algebra.cpp"
#include "algebra.h"
static std::vector<std::function<void()>> g_check;
// dense results, sparse results, operands unchanged, memory balance
template <class F> static void gives(const char* what, std::vector<M> const& dw, std::vector<M> const& sw, F f, bool own = true)
{
    reset(); g_keep = true; std::vector<double>().swap(g_out); std::vector<Seen>().swap(g_hist); std::vector<Seen>().swap(g_sp); g_counts.clear(); g_counts.reserve(16); g_bools.reserve(64);
    f();
    if (g_hist.size() != dw.size() || g_sp.size() != sw.size()) FAIL("%s: %zu and %zu results", what, g_hist.size(), g_sp.size());
    for (size_t i = 0; i < dw.size(); ++i) is(what, g_hist[i], dw[i]);
    for (size_t i = 0; i < sw.size(); ++i) is(what, g_sp[i], sw[i]);
    if (own) for (auto& c : g_check) c();
}
static void shapes(const char* what, std::vector<std::pair<size_t, size_t>> const& want)
{
    if (g_counts.size() != want.size()) FAIL("%s: %zu shapes", what, g_counts.size());
    for (size_t i = 0; i < want.size(); ++i) if (g_counts[i][0] != want[i].first || g_counts[i][1] != want[i].second || g_counts[i][2] != want[i].first * want[i].second) FAIL("%s: shape %zu x %zu (%zu), expected %zu x %zu", what, g_counts[i][0], g_counts[i][1], g_counts[i][2], want[i].first, want[i].second);
}
static void c11()
{
    while (more()) {
        g_check.clear();
        size_t r = Z(6), c = Z(6), h = Z(5), e = Z(5); CASE("%zu x %zu, inner %zu %zu", r, c, h, e);
        Buf<double> a(r * c), b(r * c), hr(h * r), ch(c * h); Buf<float> f(r * c), g(r * c), f2(c * e); fill(a); fill(b); fill(f); fill(g); fill(hr); fill(ch); fill(f2); show("a", a); show("b", b); show("f", f); show("g", g); show("left", hr); show("right", ch);
        Sps<double> S("s", r, c), S2("s2", r, c), S3("s3", r, c), T("t", c, e); Sps<float> U("u", r, c), U2("u2", r, c), V("v", c, e);
        M A = dense(r, c, a), B = dense(r, c, b), F = dense(r, c, f), G = dense(r, c, g), HR = dense(h, r, hr), CH = dense(c, h, ch), O{r, c, D(r * c, 0)};
        g_check.push_back([&] { a.same("dense operand"); b.same("dense part"); f.same("float operand"); g.same("float part"); hr.same("left factor"); ch.same("right factor"); S.same("sparse operand"); S2.same("second sparse operand"); S3.same("third sparse operand"); U.same("sparse float operand"); U2.same("second sparse float operand"); T.same("sparse factor"); V.same("float factor"); f2.same("float factor"); });
        auto back = [&] { for (size_t i = 0; i < a.n; ++i) a[i] = a.copy[i], b[i] = b.copy[i]; };
        Allocs al;
        gives("M+0", {A}, {}, [&] { vc_dz_add(r, c, a); }); gives("M-0", {A}, {}, [&] { vc_dz_sub(r, c, a); });
        gives("0+M", {A}, {}, [&] { vc_zd_add(r, c, a); }); gives("0-M", {neg(A)}, {}, [&] { vc_zd_sub(r, c, a); });
        gives("float M+0", {F}, {}, [&] { vc_fz_add(r, c, f); }); gives("float 0-M", {neg(F)}, {}, [&] { vc_zf_sub(r, c, f); });
        gives("M+=0", {A}, {}, [&] { vc_dz_add_to(r, c, a); }); gives("M-=0", {A}, {}, [&] { vc_dz_sub_to(r, c, a); });
        gives("sparse M+0", {}, {full(S)}, [&] { vc_sz_add(ARG(S)); }); gives("sparse M-0", {}, {full(S)}, [&] { vc_sz_sub(ARG(S)); });
        gives("sparse 0+M", {}, {full(S)}, [&] { vc_zs_add(ARG(S)); }); gives("sparse 0-M", {}, {neg(full(S))}, [&] { vc_zs_sub(ARG(S)); });
        gives("sparse float 0-M", {}, {neg(full(U))}, [&] { vc_zsf_sub(ARG(U)); });
        gives("0 and 0", {}, {}, [&] { vc_zz(r, c, h); }); shapes("0 and 0", {{r, c}, {r, c}, {r, c}, {r, c}, {r, h}});
        gives("M*0", {}, {}, [&] { vc_dz_mul(r, c, h, a); }); shapes("M*0", {{r, h}}); gives("0*M", {}, {}, [&] { vc_zd_mul(r, c, h, a); }); shapes("0*M", {{h, c}});
        gives("sparse M*0", {}, {}, [&] { vc_sz_mul(ARG(S), h); }); shapes("sparse M*0", {{r, h}}); gives("sparse 0*M", {}, {}, [&] { vc_zs_mul(ARG(S), h); }); shapes("sparse 0*M", {{h, c}});
        gives("dense from 0", {O}, {}, [&] { vc_z_dense(r, c); }); gives("0 from dense", {}, {}, [&] { vc_z_from(r, c, a); }); shapes("0 from dense", {{r, c}});
        M MM_ = full(S) + F, N_ = full(S) + full(U), MM2 = full(S2) + G, N2 = full(S2) + full(U2);
        gives("composite to dense", {MM_}, {}, [&] { vc_m_dense(ARG(S), f); }); gives("sparse composite to dense", {N_}, {}, [&] { vc_n_dense(ARG(S), ARB(U)); });
        gives("composite shape", {}, {}, [&] { vc_m_shape(ARG(S), f); }); shapes("composite", {{r, c}}); if (g_bools != std::vector<bool>{true, true}) FAIL("composite parts");
        gives("composite shape", {}, {}, [&] { vc_n_shape(ARG(S), ARB(U)); }); shapes("composite", {{r, c}}); if (g_bools != std::vector<bool>{true, true}) FAIL("composite parts");
        gives("dense + composite", {A + MM_}, {}, [&] { vc_dm_add(a, ARG(S), f); }); gives("composite + dense", {MM_ + A}, {}, [&] { vc_md_add(a, ARG(S), f); });
        gives("dense - composite", {A - MM_}, {}, [&] { vc_dm_sub(a, ARG(S), f); }); gives("composite - dense", {MM_ - A}, {}, [&] { vc_md_sub(a, ARG(S), f); });
        gives("dense + sparse composite", {A + N_}, {}, [&] { vc_dn_add(a, ARG(S), ARB(U)); }); gives("sparse composite + dense", {N_ + A}, {}, [&] { vc_nd_add(a, ARG(S), ARB(U)); });
        gives("dense - sparse composite", {A - N_}, {}, [&] { vc_dn_sub(a, ARG(S), ARB(U)); }); gives("sparse composite - dense", {N_ - A}, {}, [&] { vc_nd_sub(a, ARG(S), ARB(U)); });
        gives("dense += composite", {A + MM_}, {}, [&] { vc_dm_add_to(a, ARG(S), f); back(); }); gives("dense -= composite", {A - MM_}, {}, [&] { vc_dm_sub_to(a, ARG(S), f); back(); });
        gives("dense += sparse composite", {A + N_}, {}, [&] { vc_dn_add_to(a, ARG(S), ARB(U)); back(); }); gives("dense -= sparse composite", {A - N_}, {}, [&] { vc_dn_sub_to(a, ARG(S), ARB(U)); back(); });
        gives("sparse + composite", {}, {full(S2) + N_}, [&] { vc_sn_add(ARG(S), ARB(U), ARB(S2)); }); gives("composite - sparse", {}, {N_ - full(S2)}, [&] { vc_ns_sub(ARG(S), ARB(U), ARB(S2)); }); gives("sparse - composite", {}, {full(S2) - N_}, [&] { vc_sn_sub(ARG(S), ARB(U), ARB(S2)); });
        gives("composite + composite", {MM_ + MM2}, {}, [&] { vc_mm_add(ARG(S), f, ARB(S2), g); }); gives("composite - composite", {MM_ - MM2}, {}, [&] { vc_mm_sub(ARG(S), f, ARB(S2), g); });
        gives("sparse composite + sparse composite", {}, {N_ + N2}, [&] { vc_nn_add(ARG(S), ARB(U), ARB(S2), ARB(U2)); }); gives("sparse composite - sparse composite", {}, {N_ - N2}, [&] { vc_nn_sub(ARG(S), ARB(U), ARB(S2), ARB(U2)); });
        gives("dense first composite to dense", {B + full(S), B}, {}, [&] { vc_ds_dense(ARG(S), b); });
        gives("composite += dense", {B + A}, {full(S)}, [&] { vc_ds_add_d(ARG(S), b, a); back(); }); gives("composite -= dense", {B - A}, {full(S)}, [&] { vc_ds_sub_d(ARG(S), b, a); back(); });
        gives("dense += dense first composite", {A + B + full(S)}, {}, [&] { vc_ds_add_to(ARG(S), b, a); back(); });
        gives("dense * composite", {HR * MM_}, {}, [&] { vc_dm_mul(h, hr, ARG(S), f); }); gives("composite * dense", {MM_ * CH}, {}, [&] { vc_md_mul(h, ch, ARG(S), f); });
        gives("dense * sparse composite", {HR * N_}, {}, [&] { vc_dn_mul(h, hr, ARG(S), ARB(U)); }); gives("sparse composite * dense", {N_ * CH}, {}, [&] { vc_nd_mul(h, ch, ARG(S), ARB(U)); });
        gives("composite * composite", {MM_ * (full(T) + dense(c, e, f2))}, {}, [&] { vc_mm_mul(ARG(S), f, e, ARB(T), f2); }); gives("sparse composite * sparse composite", {}, {N_ * (full(T) + full(V))}, [&] { vc_nn_mul(ARG(S), ARB(U), e, ARB(T), ARB(V)); });
        std::vector<double>().swap(g_out); std::vector<Seen>().swap(g_hist); std::vector<Seen>().swap(g_sp);
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C11", c11}}); }
