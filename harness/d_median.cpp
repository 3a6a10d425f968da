// C24: MedianFilter against a sorted-window model.
#include "vf.h"
#include "maths/MedianFilter.h"
using namespace vf;

template <class T> struct Model {
    int size; std::vector<T> w;
    Model(int n) : size(n), w(n, T(0)) {}
    void push(T v) { w.erase(w.begin()); w.push_back(v == v ? v : T()); }
    void reset() { std::fill(w.begin(), w.end(), T(0)); }
    T at(float p) { std::vector<T> s = w; std::sort(s.begin(), s.end()); int i = int((size * p) / 100.f); i = std::min(i, size - 1); i = std::max(i, 0); return s[i]; }
};
template <class T> static T value(Rng &r, int style) {
    switch (style) {
    case 0: return T(r.range(-3, 3));
    case 1: return T(r.uni(-100, 100));
    case 2: return T(r.chance(0.5) ? 0 : r.range(0, 2));
    case 3: return T(-r.uni(0, 100));
    default: return T(r.gauss() * 1000);
    }
}
template <class T> static void run(Case &c, const char *ty) {
    Rng &r = c.rng;
    int size = r.pick({1, 2, 3, 4, 5, r.range(1, 12), r.range(1, 80), r.range(1, 200), r.chance(0.1) ? 1025 : 6});
    float p = r.pick({50.f, 0.f, 100.f, 25.f, (float)r.uni(0, 100), (float)r.uni(-10, 120)});
    int style = r.range(0, 4);
    c.say("%s size=%d percentile=%g style=%d", ty, size, p, style);
    bool dflt = p == 50.f && r.chance(0.5);
    MedianFilter<T> *fp = dflt ? new MedianFilter<T>(size) : new MedianFilter<T>(size, p);
    MedianFilter<T> &f = *fp;
    Model<T> m(size);
    float cur = p;
    mon.check(f.getSize() == size, "size", "%d", f.getSize());
    bool infs = std::is_floating_point<T>::value && r.chance(0.1);
    bool nans = std::is_floating_point<T>::value && r.chance(0.2);
    int n = r.chance(0.02) ? 70000 : size > 200 ? 3 * size : r.range(1, 300);
    if (n == 70000 && size > 40) n = 3000;
    for (int i = 0; i < n; ++i) {
        if (r.chance(0.01)) { f.reset(); m.reset(); mon.count("resets"); }
        if (r.chance(0.03)) { cur = r.uni(0, 100); f.setPercentile(cur); }
        T v = value<T>(r, style);
        if (nans && r.chance(0.05)) { v = T(std::nan("")); mon.count("nans"); }
        if (infs && r.chance(0.1)) { v = T(r.chance(0.5) ? INFINITY : -INFINITY); mon.count("infinities"); }
        f.push(v); m.push(v);
        if (!mon.check(f.get() == m.at(cur), "moving-percentile", "after %d pushes: %g expected %g at percentile %g", i + 1, (double)f.get(), (double)m.at(cur), cur)) break;
        float q = r.uni(-5, 105);
        if (!mon.check(f.getAt(q) == m.at(q), "percentile-at", "after %d: %g expected %g at %g", i + 1, (double)f.getAt(q), (double)m.at(q), q)) break;
    }
    delete fp;
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    quietCerr();
    mon.group("double", mon.n(600, 6000), [](Case &c) { run<double>(c, "double"); });
    mon.group("float", mon.n(250, 2500), [](Case &c) { run<float>(c, "float"); });
    mon.group("int", mon.n(250, 2500), [](Case &c) { run<int>(c, "int"); });
    mon.group("static-filter", mon.n(600, 6000), [](Case &c) {
        Rng &r = c.rng;
        int size = r.pick({1, 2, 3, 5, 7, r.range(1, 40)}), n = r.pick({0, 1, 2, size, size / 2, r.range(0, 100), r.range(0, 400), r.chance(0.1) ? r.range(400, 70000) : 50}), style = r.range(0, 4);
        if (n > 1000 && size > 10) size = r.range(1, 10);
        c.say("size=%d n=%d style=%d", size, n, style);
        dvec v(n); for (auto &x : v) x = value<double>(r, style);
        dvec keep = v, out = MedianFilter<double>::filter(size, v), want;
        Model<double> m(size);
        for (int i = 0; i < n + size / 2; ++i) { m.push(i < n ? v[i] : 0); if (i >= size / 2) want.push_back(m.at(50)); }
        mon.check(v == keep, "inputs-untouched", "filter()");
        mon.check((int)out.size() == n, "length-preserved", "%zu expected %d", out.size(), n);
        if (out.size() == want.size()) mon.sameVec(out, want, "centred-median", "filter");
    });
    return mon.finish();
}
