// C-style matrices with exactly sized rows, and a pinned source of randomness.
#ifndef VF_CMAT_H
#define VF_CMAT_H
#include "vf.h"
#include <time.h>
typedef std::vector<vf::dvec> dmat;
// time() and rand() are pinned so that runs are repeatable; the property holds for any draw
static uint64_t g_rand = 1;
extern "C" int rand() { g_rand = g_rand * 6364136223846793005ull + 1442695040888963407ull; return (int)((g_rand >> 33) & RAND_MAX); }
extern "C" void srand(unsigned) {}
extern "C" time_t time(time_t *t) { if (t) *t = 1000; return 1000; }

struct Mat {                 // C-style array of exactly sized rows
    std::vector<vf::Guarded<double> *> rows; std::vector<double *> p;
    Mat(int n, int m, double fill = -77) { for (int i = 0; i < n; ++i) { rows.push_back(new vf::Guarded<double>(m, fill)); p.push_back(rows[i]->p()); } p.push_back(0); }
    Mat(const dmat &d) { for (auto &v : d) { rows.push_back(new vf::Guarded<double>(v)); p.push_back(rows.back()->p()); } p.push_back(0); }
    ~Mat() { for (auto r : rows) delete r; }
    operator double **() { return p.data(); }
    dmat vec() { dmat d; for (auto r : rows) d.push_back(r->vec()); return d; }
};
#endif
