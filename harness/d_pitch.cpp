// C31: Pitch conversions.
#include "vf.h"
#include "base/Pitch.h"
using namespace vf;
int main(int argc, char **argv) {
    mon.parse(argc, argv);
    mon.group("to-frequency", mon.n(4000, 60000), [](Case &c) {
        Rng &r = c.rng;
        int m = r.range(-20, 140);
        float ce = r.pick({0.f, (float)r.uni(-50, 50), (float)r.uni(-300, 300)}), a = r.pick({440.f, 440.f, (float)r.uni(380, 480), 415.f, (float)r.logUni(100, 2000)});
        c.say("midi=%d cents=%g A=%g", m, ce, a);
        double want = a * std::pow(2.0, (m + ce / 100.0 - 69) / 12);
        float got = (ce == 0 && a == 440.f && r.chance(0.5)) ? Pitch::getFrequencyForPitch(m) : Pitch::getFrequencyForPitch(m, ce, a);
        mon.close(got, want, 4e-6 * want, "frequency", "frequency");
    });
    mon.group("to-pitch", mon.n(6000, 80000), [](Case &c) {
        Rng &r = c.rng;
        float a = r.pick({440.f, 440.f, (float)r.uni(380, 480), (float)r.logUni(100, 2000)});
        float f = r.pick({(float)r.logUni(1, 30000), (float)r.logUni(20, 20000), (float)(a * std::pow(2.0, r.range(-60, 60) / 12.0)),
                          (float)(a * std::pow(2.0, (r.range(-60, 60) + 0.5) / 12.0))});
        c.say("f=%.9g A=%g", f, a);
        float cents = 12345;
        int m = Pitch::getPitchForFrequency(f, &cents, a);
        double p = 69 + 12 * std::log2((double)f / a);
        mon.check(cents >= -50.01 && cents <= 50.01, "nearest-pitch", "f=%g: pitch %d with offset %g cents", f, m, cents);
        mon.close(m + cents / 100.0, p, 2e-5, "pitch", "pitch+cents");
        mon.check(Pitch::getPitchForFrequency(f, 0, a) == m, "null-cents", "f=%g", f);
        float back = Pitch::getFrequencyForPitch(m, cents, a);
        mon.close(back, f, 1e-5 * f, "round-trip", "frequency");
        mon.saw(fmt("%d", m));
    });
    mon.group("all-notes", 1, [](Case &) {
        for (int m = -12; m <= 135; ++m) {
            float f = Pitch::getFrequencyForPitch(m), ce;
            int k = Pitch::getPitchForFrequency(f, &ce);
            mon.check(k == m && std::fabs(ce) < 0.01, "exact-notes", "note %d -> %g Hz -> note %d%+g cents", m, f, k, ce);
        }
    });
    return mon.finish();
}
