// Independent reference models shared by drivers.
#ifndef VF_REF_H
#define VF_REF_H
#include "vf.h"
namespace ref {
typedef long double LD;
typedef std::vector<double> dvec;
struct Iir {
    dvec b, a; std::vector<LD> xs, ys;
    Iir(const dvec &a_, const dvec &b_) : b(b_), a(a_), xs(b_.size() + 1, 0), ys(b_.size() + 1, 0) {}
    LD step(LD x) {
        for (size_t i = xs.size() - 1; i > 0; --i) xs[i] = xs[i - 1];
        xs[0] = x;
        LD y = 0;
        for (size_t i = 0; i < b.size(); ++i) y += b[i] * xs[i];
        for (size_t i = 1; i < a.size(); ++i) y -= a[i] * ys[i - 1];
        for (size_t i = ys.size() - 1; i > 0; --i) ys[i] = ys[i - 1];
        ys[0] = y;
        return y;
    }
};
inline std::vector<LD> filtfilt(const dvec &a, const dvec &b, const std::vector<LD> &x) {
    int n = x.size(), ext = 3 * ((int)b.size() - 1);
    std::vector<LD> e(n + 2 * ext, 0);
    for (int i = 0; i < n; ++i) e[ext + i] = x[i];
    for (int i = 1; i <= ext && i < n; ++i) { e[ext - i] = 2 * x[0] - x[i]; e[ext + n - 1 + i] = 2 * x[n - 1] - x[n - 1 - i]; }
    Iir f(a, b), g(a, b);
    for (size_t i = 0; i < e.size(); ++i) e[i] = f.step(e[i]);
    for (size_t i = e.size(); i-- > 0;) e[i] = g.step(e[i]);
    return std::vector<LD>(e.begin() + ext, e.begin() + ext + n);
}
template <class T> T median(std::vector<T> v) {
    std::sort(v.begin(), v.end());
    int n = v.size();
    return n == 0 ? 0 : n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
}
// straight DFT of one frame
inline std::vector<std::complex<double> > dft(const dvec &x, int bins) {
    int n = x.size();
    std::vector<std::complex<double> > out(bins);
    dvec c(n), s(n);
    for (int i = 0; i < n; ++i) { c[i] = std::cos(2 * M_PI * i / n); s[i] = std::sin(2 * M_PI * i / n); }
    for (int k = 0; k < bins; ++k) {
        double re = 0, im = 0;
        long p = 0;
        for (int i = 0; i < n; ++i) { re += x[i] * c[p]; im -= x[i] * s[p]; p += k; if (p >= n) p -= n; }
        out[k] = std::complex<double>(re, im);
    }
    return out;
}
// independent radix-2 FFT for larger powers of two
inline void fft2(std::vector<std::complex<double> > &a) {
    size_t n = a.size();
    for (size_t i = 1, j = 0; i < n; ++i) { size_t bit = n >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) std::swap(a[i], a[j]); }
    for (size_t len = 2; len <= n; len <<= 1) {
        std::vector<std::complex<double> > w(len / 2);
        for (size_t k = 0; k < len / 2; ++k) w[k] = std::polar(1.0, -2 * M_PI * (double)k / (double)len);
        for (size_t i = 0; i < n; i += len) for (size_t k = 0; k < len / 2; ++k) {
            std::complex<double> u = a[i + k], v = a[i + k + len / 2] * w[k];
            a[i + k] = u + v; a[i + k + len / 2] = u - v;
        }
    }
}
inline std::vector<std::complex<double> > spectrum(const dvec &x) {   // n/2+1 bins
    int n = x.size();
    if (n & (n - 1)) return dft(x, n / 2 + 1);
    std::vector<std::complex<double> > a(n);
    for (int i = 0; i < n; ++i) a[i] = x[i];
    fft2(a); a.resize(n / 2 + 1);
    return a;
}
inline double princarg(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); }
}
#endif
