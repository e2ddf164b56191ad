#include "hooks.h"
#include "product.cpp"

template <class TA, class TB, class F>
static void prod(const char* nm, F f, const char* order, size_t m, size_t k, size_t n)
{
    Buf<TA> a(m * k); Buf<TB> b(k * n);
    fill(a); fill(b);
    CASE("%s m=%zu k=%zu n=%zu", nm, m, k, n); show("A", a); show("B", b);
    reset();
    Allocs al;
    f(a, b);
    al.at += g_out.capacity() * sizeof(double); al.same();
    a.same("A"); b.same("B");
    bool ra = order[0] == 'r', rb = order[1] == 'r';
    expect(m, n, order[2] == 'r', [&](size_t i, size_t j) {
        double s = 0;
        for (size_t l = 0; l < k; ++l) s += double(ra ? a[i * k + l] : a[i + l * m]) * double(rb ? b[l * n + j] : b[l + j * k]);
        return s; });
    g_out = std::vector<double>();
}

static void c07()
{
    for (int round = 0; more() || round < 60; ++round) {
        int mx = round < 40 ? 3 : 8;
        size_t m = Z(mx), k = Z(mx), n = Z(mx), r = R(0, mx), c = R(0, mx);
        if (round % 5 == 0) r = m, c = n;
        if (round % 5 == 1) r = n, c = m;
        prod<double, double>("dense", [&](double* a, double* b) { vc_dense_product(m, k, n, a, b); }, "ccc", m, k, n);
        prod<double, double>("dense into old", [&](double* a, double* b) { vc_dense_product_again(m, k, n, a, b, r, c); }, "ccc", m, k, n);
        prod<float, float>("float", [&](float* a, float* b) { vc_dense_product_float(m, k, n, a, b); }, "ccc", m, k, n);
        prod<float, double>("float*double", [&](float* a, double* b) { vc_dense_product_mixed(m, k, n, a, b); }, "ccc", m, k, n);
        prod<double, float>("double*float", [&](double* a, float* b) { vc_dense_product_mixed2(m, k, n, a, b); }, "ccc", m, k, n);
        prod<double, double>("cursor", [&](double* a, double* b) { vc_cursor_product(m, k, n, a, b); }, "ccc", m, k, n);
        prod<double, double>("cursor into old", [&](double* a, double* b) { vc_cursor_product_again(m, k, n, a, b, r, c); }, "ccc", m, k, n);
        prod<double, double>("cursor row-major", [&](double* a, double* b) { vc_cursor_product_rowmajor(m, k, n, a, b); }, "rrr", m, k, n);
#define MIXED(o) prod<double, double>("dense " #o, [&](double* a, double* b) { vc_dense_product_##o(m, k, n, a, b); }, #o, m, k, n);
        MIXED(rrc) MIXED(rcc) MIXED(crc) MIXED(rrr) MIXED(ccr)
        prod<double, double>("row-major operator", [&](double* a, double* b) { vc_dense_product_op(m, k, n, a, b); }, "rrc", m, k, n);
    }
}

int main(int argc, char** argv) { return drv_main(argc, argv, {{"C07", c07}}); }
