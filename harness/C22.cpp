#include "h.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
using namespace H;
using namespace NeoFOAM;
static double q() { return chance(1, 8) ? 0.0 : (double)(rnd(401) - 200) / 8; }
static Vector rv() { return Vector(q(), q(), q()); }
static std::string str(const Vector& v) { std::ostringstream o; o << v; return o.str(); }
static void is(const Vector& v, double x, double y, double z, const std::string& w)
{
    CHECK(v[0] == x && v(1) == y && v.data()[2] == z, w + ": got " + str(v));
}
static void caseOf()
{
    begin();
    Vector a = rv(), b = chance(1, 4) ? a : rv();
    const double a0 = a[0], a1 = a[1], a2 = a[2], b0 = b[0], b1 = b[1], b2 = b[2];
    bool self = chance(1, 4);
    double s = q();
    label l = (label)(rnd(41) - 20);
    size_t k = (size_t)rnd(3);
    std::ostringstream w;
    long op = rnd(14);
    w << "op " << op << " a=" << a << " b=" << b << " s=" << s << " label=" << l << " component=" << k << " self=" << self;
    step(w.str());
    nontrivial += a0 != 0 || a1 != 0 || a2 != 0;
    switch (op)
    {
        case 0: is(a + b, a0 + b0, a1 + b1, a2 + b2, last() + " sum"); is(a + a, a0 + a0, a1 + a1, a2 + a2, last() + " sum"); break;
        case 1: is(a - b, a0 - b0, a1 - b1, a2 - b2, last() + " difference"); break;
        case 2: if (self) { a += a; is(a, 2 * a0, 2 * a1, 2 * a2, last()); } else { CHECK(&(a += b) == &a, last()); is(a, a0 + b0, a1 + b1, a2 + b2, last()); } break;
        case 3: if (self) { a -= a; is(a, 0, 0, 0, last()); } else { CHECK(&(a -= b) == &a, last()); is(a, a0 - b0, a1 - b1, a2 - b2, last()); } break;
        case 4: is(a * s, a0 * s, a1 * s, a2 * s, last()); is(s * a, a0 * s, a1 * s, a2 * s, last()); break;
        case 5: is(a * l, a0 * l, a1 * l, a2 * l, last()); break;
        case 6: if (self) { double f = a[k]; a *= a(k); is(a, a0 * f, a1 * f, a2 * f, last() + " scaled by its own component"); } else { CHECK(&(a *= s) == &a, last()); is(a, a0 * s, a1 * s, a2 * s, last()); } break;
        case 7: { double f = a[k]; is(a(k) * a, a0 * f, a1 * f, a2 * f, last()); is(a * a(k), a0 * f, a1 * f, a2 * f, last()); break; }
        case 8: CHECK((a & b) == a0 * b0 + a1 * b1 + a2 * b2, last() + " inner product"); CHECK((a & a) == a0 * a0 + a1 * a1 + a2 * a2, last()); break;
        case 9: CHECK(std::fabs(mag(a) - std::sqrt(a & a)) <= 1e-12 * (1 + mag(a)), last() + " magnitude"); CHECK(mag(s) == (s < 0 ? -s : s), last() + " scalar magnitude"); break;
        case 10: CHECK((a == b) == (a0 == b0 && a1 == b1 && a2 == b2), last() + " comparison"); CHECK(a == a, last()); b = a; b[k] += 1; CHECK(!(a == b), last()); break;
        case 11: a(k) = s; is(a, k == 0 ? s : a0, k == 1 ? s : a1, k == 2 ? s : a2, last()); a[k] = s + 1; is(a, k == 0 ? s + 1 : a0, k == 1 ? s + 1 : a1, k == 2 ? s + 1 : a2, last()); break;
        case 12: { is(Vector(), 0, 0, 0, last()); is(Vector(s), s, s, s, last()); Vector c(a); is(c, a0, a1, a2, last()); c = b; is(c, b0, b1, b2, last()); CHECK(a.size() == 3, last()); break; }
        default: is(one<Vector>(), 1, 1, 1, last()); is(zero<Vector>(), 0, 0, 0, last()); CHECK(one<scalar>() == 1 && zero<scalar>() == 0 && one<localIdx>() == 1 && zero<localIdx>() == 0, last()); is(a, a0, a1, a2, last()); return;
    }
    if (op != 2 && op != 3 && op != 6 && op != 11) is(a, a0, a1, a2, last() + ": operand changed");
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        for (int i = 0; i < 50; i++) caseOf();
    } while (!timeUp());
    printf("STATS {\"evaluations\": %ld, \"nontrivial\": %ld}\n", evaluations, nontrivial);
    return 0;
}
