// Random elements: valid, different from call to call, spread over the whole set; rotation vectors from angle and axis
#include "gen.hpp"
#include "prog.hpp"
namespace {
using ref::F; using ref::Val;
struct A; struct B; struct C;
template <typename T> using F2 = wave::Framed<T, A, B>;
template <typename T> using F3 = wave::Framed<T, A, B, C>;
using Rmf = wave::MatrixRotation<Eigen::Matrix3f>; using Rqf = wave::QuaternionRotation<Eigen::Quaternionf>; using Raf = wave::AngleAxisRotation<Eigen::AngleAxisf>;
using Tmf = wave::MatrixRigidTransform<Eigen::Matrix4f>; using Tqf = wave::CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>;
using Rmr = wave::MatrixRotation<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>; using Tmr = wave::MatrixRigidTransform<Eigen::Matrix<double, 4, 4, Eigen::RowMajor>>;
template <typename T> F eps() { return std::is_same<wave::internal::scalar_t<T>, float>::value ? 3e-6L : 1e-14L; }

/** a way of asking for random elements */
template <typename T> struct Ask {
    static constexpr int ways = 4;
    static auto get(int way) {
        switch (way) {
            case 0: return wave::internal::plain_output_t<T>(T::Random());
            case 1: return wave::internal::plain_output_t<T>(wave::Random<T>{}.eval());
            case 2: { T x; x = wave::Random<T>{}; return wave::internal::plain_output_t<T>(x); }
            default: { const wave::Random<T> e{}; return wave::internal::plain_output_t<T>(wave::eval(e)); }
        }
    }
};
template <typename T> T mapped(int) { return T::Random(); }

inline std::vector<F> flat(const Val &v) {
    std::vector<F> o;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.push_back(v.R(i, j));
    for (int i = 0; i < 3; ++i) o.push_back(v.v[i]);
    for (int i = 0; i < 3; ++i) o.push_back(v.u[i]);
    o.push_back(v.s);
    return o;
}
template <typename T> void valid(pbt::Source &s, const char *name) {
    const int way = (int) s.below(Ask<T>::ways), n = s.range(20, 60);
    s.label(name);
    s.nontrivial();
    std::vector<std::vector<F>> seen;
    for (int i = 0; i < n; ++i) {
        const auto x = Ask<T>::get(way);
        const Val v = gen::val(x);
        if (!(ref::mag(v) < 1e3L)) pbt::fail(name, "::Random(): not finite, or absurdly large: ", v);
        const F bad = gen::invalid(x);
        if (!(bad < eps<T>())) pbt::fail(name, "::Random(): not a valid element: off by ", (double) bad, ": ", v);
        seen.push_back(flat(v));
    }
    int equal = 0;
    std::sort(seen.begin(), seen.end());
    for (int i = 1; i < n; ++i) equal += seen[i] == seen[i - 1];
    if (equal > 1) pbt::fail(name, "::Random(): ", equal + 1, " of ", n, " draws are equal");
    s.note([&](std::ostream &o) { o << n << " draws of " << name << ", way " << way; });
}
// ---- spread over the rotation group
/** the 24 rotations of the cube split the group in 24 parts of equal size; the angle and the axis octant split it further */
struct Spread {
    static const std::vector<Eigen::Quaterniond> &cube() {
        static std::vector<Eigen::Quaterniond> c = [] {
            std::vector<Eigen::Quaterniond> v;
            const double r = std::sqrt(0.5);
            for (int i = 0; i < 4; ++i) { Eigen::Vector4d e = Eigen::Vector4d::Zero(); e(i) = 1; v.emplace_back(Eigen::Quaterniond(Eigen::Vector4d(e))); }
            for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int sg = -1; sg <= 1; sg += 2) { Eigen::Vector4d e = Eigen::Vector4d::Zero(); e(i) = r; e(j) = sg * r; v.emplace_back(Eigen::Quaterniond(Eigen::Vector4d(e))); }
            for (int k = 0; k < 8; ++k) v.emplace_back(Eigen::Quaterniond(Eigen::Vector4d(k & 1 ? .5 : -.5, k & 2 ? .5 : -.5, k & 4 ? .5 : -.5, .5)));
            return v;
        }();
        return c;
    }
    std::vector<int> cell = std::vector<int>(24 * 8, 0), octant = std::vector<int>(24, 0), joint = std::vector<int>(64, 0);
    std::vector<F> angle;
    int n = 0;
    void add(const ref::M3 &R, const ref::V3 *t) {
        F q[4];
        ref::toQuat(R, q);
        Eigen::Vector4d c((double) q[0], (double) q[1], (double) q[2], (double) q[3]);
        int best = 0;
        double b = -1;
        for (int i = 0; i < 24; ++i) { const double d = std::fabs(cube()[i].coeffs().dot(c)); if (d > b) { b = d; best = i; } }
        // where within the part: the signs of the remaining rotation
        const Eigen::Quaterniond rest = cube()[best].conjugate() * Eigen::Quaterniond(c);
        const Eigen::Vector3d u = rest.vec() * (rest.w() < 0 ? -1 : 1);
        const int o = (u(0) > 0) + 2 * (u(1) > 0) + 4 * (u(2) > 0);
        ++cell[best * 8 + o];
        const F th = 2 * std::atan2((F) c.head<3>().norm(), std::fabs((F) c(3)));
        angle.push_back((th - std::sin(th)) / ref::PI);   // uniform for evenly spread rotations
        if (t) ++joint[((*t)[0] > 0) + 2 * ((*t)[1] > 0) + 4 * ((*t)[2] > 0) + 8 * o];
        ++n;
    }
    void judge(const std::string &name, bool joint_) {
        for (int i = 0; i < (int) cell.size(); ++i)
            if (cell[i] == 0) pbt::fail(name, ": of ", n, " draws none lies in part ", i, " of 192 equal parts of the rotation group");
        for (int i = 0; i < 24; ++i) {
            int c = 0;
            for (int o = 0; o < 8; ++o) c += cell[i * 8 + o];
            if (c < n / 48 || c > n / 12) pbt::fail(name, ": of ", n, " draws ", c, " lie in one of 24 equal parts of the rotation group");
        }
        std::sort(angle.begin(), angle.end());
        F d = 0;
        for (int i = 0; i < n; ++i) d = std::max(d, std::fabs(angle[i] - (i + 0.5L) / n));
        if (d > 0.06L) pbt::fail(name, ": rotation angles are not spread evenly over the group: distribution off by ", (double) d);
        if (joint_) for (int i = 0; i < 64; ++i) if (joint[i] == 0) pbt::fail(name, ": no translations of octant ", i % 8, " with rotations of class ", i / 8, " in ", n, " draws");
    }
};
template <typename T> void spread(pbt::Source &s, const char *name) {
    const int way = (int) s.below(Ask<T>::ways);
    s.label(name);
    s.nontrivial();
    Spread sp;
    bool tr = false;
    for (int i = 0; i < 8000; ++i) {
        const Val v = gen::val(Ask<T>::get(way));
        tr = v.k == ref::RT;
        sp.add(v.R, tr ? &v.v : nullptr);
    }
    sp.judge(name, tr);
    s.note([&](std::ostream &o) { o << "8000 draws of " << name << ", way " << way; });
}
/** vectors: every combination of signs, no coordinate tied to another */
template <typename T> void signs(pbt::Source &s, const char *name) {
    const int way = (int) s.below(Ask<T>::ways);
    s.label(name);
    s.nontrivial();
    std::map<int, int> seen;
    int n = 0, dim = 0;
    std::vector<F> lo(6, 1e9L), hi(6, -1e9L);
    for (; n < 3000; ++n) {
        const Val v = gen::val(Ask<T>::get(way));
        std::vector<F> x;
        if (v.k == ref::SCALAR) x = {v.s};
        else { x = {v.v[0], v.v[1], v.v[2]}; if (v.k == ref::TWIST) for (int i = 0; i < 3; ++i) x.push_back(v.u[i]); }
        dim = (int) x.size();
        int k = 0;
        for (int i = 0; i < dim; ++i) { k |= (x[i] > 0) << i; lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); for (int j = 0; j < i; ++j) if (x[i] == x[j]) ++seen[-1 - i * 6 - j]; }
        ++seen[k];
    }
    for (int k = 0; k < (1 << dim); ++k) if (!seen.count(k)) pbt::fail(name, "::Random(): sign pattern ", k, " never occurs in ", n, " draws");
    for (auto &x : seen) if (x.first < 0 && x.second > 10) pbt::fail(name, "::Random(): two coordinates are equal in ", x.second, " of ", n, " draws");
    for (int i = 0; i < dim; ++i) if (hi[i] - lo[i] < 1e-3L) pbt::fail(name, "::Random(): coordinate ", i, " hardly varies");
    s.note([&](std::ostream &o) { o << n << " draws of " << name; });
}
#define EACH_ROTATION(f) \
    case 0: f<wave::RotationMd>(s, "RotationMd"); break; case 1: f<wave::RotationQd>(s, "RotationQd"); break; case 2: f<wave::RotationAd>(s, "RotationAd"); break; \
    case 3: f<Rmf>(s, "MatrixRotation<Matrix3f>"); break; case 4: f<Rqf>(s, "QuaternionRotation<Quaternionf>"); break; case 5: f<Raf>(s, "AngleAxisRotation<AngleAxisf>"); break; \
    case 6: f<Rmr>(s, "MatrixRotation<row-major>"); break; case 7: f<F2<wave::RotationMd>>(s, "Framed<RotationMd>"); break; case 8: f<F2<wave::RotationQd>>(s, "Framed<RotationQd>"); break; \
    case 9: f<F2<wave::RotationAd>>(s, "Framed<RotationAd>"); break; case 10: f<wave::RigidTransformMd>(s, "RigidTransformMd"); break; case 11: f<wave::RigidTransformQd>(s, "RigidTransformQd"); break; \
    case 12: f<Tmf>(s, "MatrixRigidTransform<Matrix4f>"); break; case 13: f<Tqf>(s, "CompactRigidTransform<Quaternionf>"); break; case 14: f<Tmr>(s, "MatrixRigidTransform<row-major>"); break; \
    case 15: f<F2<wave::RigidTransformMd>>(s, "Framed<RigidTransformMd>"); break; case 16: f<F2<wave::RigidTransformQd>>(s, "Framed<RigidTransformQd>"); break;
#define EACH_VECTOR(f) \
    case 17: f<wave::Translationd>(s, "Translationd"); break; case 18: f<wave::RelativeRotationd>(s, "RelativeRotationd"); break; case 19: f<wave::Pointd>(s, "Pointd"); break; case 20: f<wave::Twistd>(s, "Twistd"); break; \
    case 21: f<wave::Translation<Eigen::Vector3f>>(s, "Translation<Vector3f>"); break; case 22: f<F3<wave::Translationd>>(s, "Framed<Translationd>"); break; case 23: f<F3<wave::RelativeRotationd>>(s, "Framed<RelativeRotationd>"); break; \
    case 24: f<F2<wave::Pointd>>(s, "Framed<Pointd>"); break; case 25: f<F3<wave::Twistd>>(s, "Framed<Twistd>"); break;
FACET("valid random elements", 40) { switch (s.below(26)) { EACH_ROTATION(valid) EACH_VECTOR(valid) } }
FACET("random rotations cover the group", 1) { switch (s.below(17)) { EACH_ROTATION(spread) } }
FACET("random vectors take all signs", 1) { switch (17 + s.below(9)) { EACH_VECTOR(signs) } }
FACET("random elements inside expressions", 20) {
    const auto p = gen::leaf<wave::Translationd>(s, [] { gen::Opt o; o.nonzero = true; return o; }(), "p");
    const F n = p.value().norm();
    std::set<double> xs;
    for (int i = 0; i < 6; ++i) {
        const auto q = (wave::Random<wave::RotationMd>{} * p).eval();
        if (!(std::fabs(q.value().norm() - n) <= 1e-12L * n)) pbt::fail("Random rotation applied to p changed its length");
        xs.insert(q.value()(0));
        const wave::RotationQd r = wave::RotationQd::Random();
        const wave::RotationMd back{inverse(r) * (r * wave::Random<wave::RotationQd>{})};
        if (!(gen::invalid(back) < 1e-13L)) pbt::fail("a product with a random rotation is not a rotation");
        const wave::Pointd o = wave::Pointd::Random();
        const wave::Pointd o2{o + wave::Random<wave::Translationd>{}};
        if (o2.value() == o.value()) pbt::fail("adding a random translation changed nothing");
    }
    if (n > 0 && xs.size() < 5) pbt::fail("Random<RotationMd>{} gives the same rotation when evaluated again");
    s.nontrivial();
}
// ---- angle and axis
template <typename S> void angleAxis(pbt::Source &s) {
    constexpr bool single = std::is_same<S, float>::value;
    Eigen::Matrix<S, 3, 1> axis = gen::axis(s).cast<S>();
    if (axis.norm() < S(0.5)) throw pbt::Discard{};
    const int lim = single ? 36 : 300;
    S scale = 1;
    switch (s.below(4)) {
        case 0: break;
        case 1: scale = (S) std::pow(10.0, s.range(-6, 6)); break;
        case 2: scale = (S) std::pow(10.0, s.range(-lim, lim)); break;
        default: scale = (S) s.uniform(0.1, 10);
    }
    axis *= scale;
    if (s.coin()) axis = -axis;
    const double a0 = s.below(4) == 0 ? gen::number(s, 1e3) : gen::angle(s, gen::PRINCIPAL) * (s.coin() ? 1 : -1);
    const S a = (S) a0;
    using Leaf = wave::RelativeRotation<Eigen::Matrix<S, 3, 1>>;
    Leaf r(S(7), S(8), S(9));
    Eigen::Matrix<S, 5, 1> big = Eigen::Matrix<S, 5, 1>::Constant(3);
    const Eigen::Matrix<S, 3, 1> before = axis;
    switch (s.below(6)) {
        case 0: r = Leaf::FromAngleAndAxis(a, axis); break;
        case 1: { Leaf &x = r.setFromAngleAndAxis(a, axis); if (&x != &r) pbt::fail("setFromAngleAndAxis does not return its object"); break; }
        case 2: r = Leaf::FromAngleAndAxis(a, 1 * axis); break;
        case 3: r = Leaf::FromAngleAndAxis(a, axis.transpose()); break;
        case 4: big.template segment<3>(1) = axis; r = Leaf::FromAngleAndAxis(a, big.template segment<3>(1)); break;
        default: r.value() = axis; r.setFromAngleAndAxis(a, r.value());
    }
    if (axis != before) pbt::fail("the axis was changed");
    const ref::V3 w = gen::v3(before), g = gen::v3(r.value());
    const F n = ref::norm3(w);
    const ref::V3 want = ((F) a / n) * w;
    const F tol = (single ? 3e-7L : 1e-15L) * std::fabs((F) a) + (single ? 1e-44L : 1e-322L);
    for (int i = 0; i < 3; ++i) if (!(std::fabs(g[i] - want[i]) <= tol)) pbt::fail("angle ", a, " about (", before.transpose(), "): coordinate ", i, " is ", r.value()(i), " instead of ", (double) want[i]);
    if constexpr (!single) {
        const wave::RotationMd R{exp(r)};
        const ref::M3 W = ref::expSO3(want);
        const F d = ref::maxabs(gen::m3(R.value()) - W);
        if (!(d <= 1e-14L * (1 + std::fabs((F) a)))) pbt::fail("exp of angle ", a, " about (", before.transpose(), ") is off by ", (double) d);
    }
    if (a != 0) s.nontrivial();
    s.note([&](std::ostream &o) { o << "angle " << a << " about " << before.transpose(); });
}
FACET("angle and axis", 60) { if (s.below(4)) angleAxis<double>(s); else angleAxis<float>(s); }
}  // namespace
