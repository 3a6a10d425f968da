// C06: DCT against its definition; independence of successive calls.
#include "vf.h"
#include "dsp/transforms/DCT.h"
using namespace vf;
typedef long double LD;

static const std::vector<LD> &cosines(int n) {     // cos(pi j / 2n), j < 4n
    static std::vector<LD> t; static int have = 0;
    if (have != n) { t.resize(4 * n); for (int j = 0; j < 4 * n; ++j) t[j] = cosl(M_PIl * j / (2.0L * n)); have = n; }
    return t;
}
static dvec dct2(const dvec &x) {
    int n = x.size(); dvec o(n);
    const std::vector<LD> &w = cosines(n);
    for (int k = 0; k < n; ++k) {
        LD s = 0;
        for (int i = 0; i < n; ++i) s += (LD)x[i] * w[(long long)k * (2 * i + 1) % (4 * n)];
        o[k] = 2 * s;
    }
    return o;
}
static dvec idct2(const dvec &X) {
    int n = X.size(); dvec o(n);
    const std::vector<LD> &w = cosines(n);
    for (int i = 0; i < n; ++i) {
        LD s = (LD)X[0] / 2;
        for (int k = 1; k < n; ++k) s += (LD)X[k] * w[(long long)k * (2 * i + 1) % (4 * n)];
        o[i] = s / n;
    }
    return o;
}
static void one(Case &c, DCT &d, int n, double amp) {
    Rng &r = c.rng;
    std::string k;
    dvec x = signal(r, n, &k);
    for (auto &v : x) v *= amp;
    level(r, x, 1e-100, 1e100, 0.2);
    double A = maxAbs(x) + 1e-300;
    int op = r.range(0, 3);
    bool inplace = r.chance(0.2);
    c.say("op%d %s amp=%g%s;", op, k.c_str(), amp, inplace ? " in-place" : "");
    Guarded<double> in(x), outb(n, 4242.0);
    double *out = inplace ? in.p() : outb.p();
    double su = std::sqrt(2.0 * n), s0 = su * std::sqrt(2.0);
    dvec want;
    double q = 1e-13 * (1 + n / 1500.0), tol = q * n * A * 2;   // (sequential sums over a large prime size)
    const char *rule = "";
    switch (op) {
    case 0: d.forward(in, out); want = dct2(x); rule = "forward-definition"; break;
    case 1: d.forwardUnitary(in, out); want = dct2(x); for (int i = 0; i < n; ++i) want[i] /= (i ? su : s0); rule = "unitary-forward-definition"; tol /= std::sqrt((double)n); break;
    case 2: d.inverse(in, out); want = idct2(x); rule = "inverse-definition"; tol = q * A * 4; break;
    case 3: { dvec y(x); for (int i = 0; i < n; ++i) y[i] *= (i ? su : s0); d.inverseUnitary(in, out); want = idct2(y); rule = "unitary-inverse-definition"; tol = q * std::sqrt((double)n) * A * 8; break; }
    }
    mon.closeVec(out, want.data(), n, tol, rule, fmt("n=%d", n).c_str());
    if (!inplace) mon.check(in.vec() == x, "input-unmodified", "n=%d op %d", n, op);
    mon.check(in.intact() && outb.intact(), "extent", "n=%d op %d", n, op);
    mon.saw(fmt("%d %d", n, op));
    if (!inplace) {
        dvec y(outb.p(), outb.p() + n);
        Guarded<double> gi(y), go(n, 1.0);
        switch (op) {
        case 0: d.inverse(gi, go); break;
        case 1: d.inverseUnitary(gi, go); break;
        case 2: d.forward(gi, go); break;
        case 3: d.forwardUnitary(gi, go); break;
        }
        mon.closeVec(go.p(), x.data(), n, 2e-13 * n * A + 1e-300, "round-trip", fmt("n=%d op %d", n, op).c_str());
        if (op == 1) {
            double e0 = 0, e1 = 0;
            for (int i = 0; i < n; ++i) { e0 += x[i] * x[i]; e1 += y[i] * y[i]; }
            mon.close(e1, e0, 1e-11 * n * (e0 + 1e-300), "unitary-energy", fmt("n=%d", n).c_str());
        }
    }
}
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("all-sizes", mon.n(200, 600), [](Case &c) {
        int n = c.idx + 1; c.say("n=%d", n);
        DCT d(n);
        for (int k = 0; k < 6; ++k) one(c, d, n, 1);
    });
    mon.group("sizes", mon.n(40, 400), [](Case &c) {
        int n = c.rng.pick({256, 300, 512, 601, 720, 1000, 128, 1024, 1500, 2048, 2049}); c.say("n=%d", n);
        DCT d(n);
        for (int k = 0; k < 3; ++k) one(c, d, n, c.rng.logUni(1e-6, 1e6));
    });
    mon.group("large", mon.n(8, 40), [](Case &c) {
        int n = c.rng.pick({4096, 5000, 8192, 8193, 10000, 16384, c.rng.range(4097, 9000), c.rng.range(4097, 20000)}); c.say("n=%d", n);
        DCT d(n);
        for (int k = 0; k < 2; ++k) one(c, d, n, 1);
    });
    // one object through very many calls
    mon.group("long-lived", mon.n(12, 60), [](Case &c) {
        Rng &r = c.rng; int n = r.range(1, 16); c.say("n=%d", n);
        DCT d(n); dvec x = noise(r, n), y(n), o(n), first[4];
        for (int k = 0; k < 70000; ++k) {
            bool probe = k % 3 == 0; int op = k / 3 % 4;
            for (int i = 0; i < n; ++i) y[i] = probe ? x[i] : x[(i + k) % n] * (k % 11);
            switch (op) { case 0: d.forward(y.data(), o.data()); break; case 1: d.forwardUnitary(y.data(), o.data()); break; case 2: d.inverse(y.data(), o.data()); break; default: d.inverseUnitary(y.data(), o.data()); }
            if (!probe) continue;
            if (first[op].empty()) first[op] = o;
            else if (memcmp(first[op].data(), o.data(), n * sizeof(double))) { mon.check(false, "each-call-stands-alone", "n=%d op %d: call %d differs from the first", n, op, k); return; }
        }
        mon.passed("each-call-stands-alone", 23000);
    });
    // one object, calls of wildly different level: nothing may leak from call to call
    mon.group("history", mon.n(300, 3000), [](Case &c) {
        int n = c.rng.range(1, 48); c.say("n=%d", n);
        DCT d(n);
        for (int k = 0; k < 8; ++k) one(c, d, n, c.rng.pick({1.0, 1.0, 1e-9, 1e12, 1e-3, 1e6}));
    });
    return mon.finish();
}
