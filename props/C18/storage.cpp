#include "blocks.hpp"
namespace {
template <typename X> void diagonal(pbt::Source &s) {
    using DM = wave::DiagonalBlockMatrix<X>;
    const std::vector<int> b = Blocks<X>::get();
    const int N = total(b);
    constexpr int NB = numBlocks<X>();
    constexpr int NC = DM::RowsAtCompileTime;
    using Vec = Eigen::Matrix<double, NC, 1>;
    Dyn d = ints(s, N, 1);
    DM m{Vec(d)};
    const int n = s.range(1, 12);
    if (n > 1) s.nontrivial();
    std::string done;
    for (int k = 0; k < n; ++k) {
        const int i = (int) s.below(NB), op = (int) s.below(9), o = offset(b, i);
        done += " " + std::to_string(op) + "(" + std::to_string(i) + ")";
        choose<NB>(i, [&](auto I) {
            constexpr int i_ = decltype(I)::value;
            switch (op) {
                case 0: { const Dyn x = ints(s, b[i], 1); m.template segmentWrt<i_>() = x; d.middleRows(o, b[i]) = x; break; }
                case 1: eq(m.template segmentWrt<i_>().eval(), d.middleRows(o, b[i]), "segmentWrt"); break;
                case 2: { const Dyn x = ints(s, N, 1); m = Vec(x).asDiagonal(); d = x; break; }
                case 3: { const DM c(m); m.setZero(); eq(m.toDenseMatrix().eval(), Dyn::Zero(N, N), "setZero"); m = c; break; }
                case 4: { const Dyn x = ints(s, N, N); const Eigen::Matrix<double, NC, NC> f(x); eq((m * f).eval(), d.asDiagonal() * x, "times matrix"); eq((f * m).eval(), x * d.asDiagonal(), "matrix times"); break; }
                case 5: { const Dyn x = ints(s, N, 1); eq((m * Vec(x)).eval(), d.cwiseProduct(x), "times vector"); break; }
                case 6: m.template segmentWrt<i_>() *= 2; d.middleRows(o, b[i]) *= 2; break;
                case 7: { const Eigen::Matrix<double, NC, NC> f(m); eq(f, Dyn(d.asDiagonal()), "to a matrix"); break; }
                default: for (int q = 0; q < N; ++q) if (d(q) == 0) return; eq(m.inverse().toDenseMatrix(), Dyn(d.cwiseInverse().asDiagonal()), "inverse");
            }
        });
        eq(m.diagonal(), d, "after" + done);
        if (d.cwiseAbs().maxCoeff() > 1e6) { d = ints(s, N, 1); m = Vec(d).asDiagonal(); }
    }
    s.note([&](std::ostream &o) { o << "diagonal " << N << done; });
}
FACET("diagonal block matrices", 1) {
    switch (s.below(5)) {
        case 0: diagonal<wave::Twistd>(s); break;
        case 1: diagonal<wave::RotationMd>(s); break;
        case 2: diagonal<wave::RigidTransformQd>(s); break;
        case 3: diagonal<wave::Scalar<double>>(s); break;
        default: diagonal<cmp::VecN<wave::Translationd, wave::Scalar<double>, wave::Twistd>>(s);
    }
}
template <typename K> K key(int i);
template <> int key<int>(int i) { return i * 7 - 20; }
template <> std::string key<std::string>(int i) { return "k" + std::to_string(i); }
char g_memory[128];
template <> const void *key<const void *>(int i) { return g_memory + i; }
template <typename K, typename S> void maps(pbt::Source &s) {
    const bool big = s.below(4) == 0;     // mostly the sizes of real Jacobians, sometimes far larger ones
    const int span = big ? 60 : 10;
    const int keys = s.range(0, big ? 60 : 8), rows = s.range(0, big ? 40 : 6);
    std::vector<std::pair<K, int>> spec;
    std::map<K, Dyn> model;
    std::vector<int> names;
    for (int i = 0; i < keys; ++i) {
        const int k = s.range(0, span - 1), w = s.range(1, big ? 20 : 6);
        const auto it = model.find(key<K>(k));
        const int width = it == model.end() ? w : (int) it->second.cols();   // a repeated key is the same leaf
        spec.push_back({key<K>(k), width});
        if (it == model.end()) { model[key<K>(k)] = Dyn::Zero(rows, width); names.push_back(k); }
    }
    if (s.coin()) std::sort(spec.begin(), spec.end());
    using MM = wave::MatrixMap<K, S>;
    MM m(spec.begin(), spec.end(), rows);
    std::string done;
    auto checkAll = [&](const MM &c) {
        for (int k = 0; k < span; ++k) {
            const auto it = model.find(key<K>(k));
            if ((int) c.count(key<K>(k)) != (it == model.end() ? 0 : 1)) pbt::fail("count of key ", k, " after", done);
            if (it != model.end()) { eq(c.at(key<K>(k)).eval(), it->second, "at(key " + std::to_string(k) + ") const after" + done); eq(c[key<K>(k)].eval(), it->second, "const [key " + std::to_string(k) + "] after" + done); }
            else {
                bool threw = false;
                try { (void) c.at(key<K>(k)); } catch (const std::exception &) { threw = true; }
                if (!threw) pbt::fail("at() of an absent key did not throw after", done);
            }
        }
    };
    if (s.coin()) m.setZero(); else for (auto &x : model) m[x.first] = (x.second = ints(s, rows, (int) x.second.cols())).template cast<S>();
    const int n = s.range(1, big ? 5 : 14);
    if (n > 2 && names.size() > 1) s.nontrivial();
    checkAll(m);
    for (int k = 0; k < n && !names.empty(); ++k) {
        const int a = s.pick(names), b = s.pick(names), op = (int) s.below(8);
        done += " " + std::to_string(op) + "(" + std::to_string(a) + "," + std::to_string(b) + ")";
        Dyn &x = model[key<K>(a)], &y = model[key<K>(b)];
        const Dyn z = ints(s, rows, (int) x.cols());
        switch (op) {
            case 0: m[key<K>(a)] = z.template cast<S>(); x = z; break;
            case 1: m.at(key<K>(a)) = z.template cast<S>(); x = z; break;
            case 2: m[key<K>(a)] += z.template cast<S>(); x += z; break;
            case 3: if (x.cols() == y.cols()) { m[key<K>(a)] = m[key<K>(b)]; x = Dyn(y); } break;
            case 4: m[key<K>(a)].noalias() += 2 * z.template cast<S>(); x += 2 * z; break;
            case 5: { MM c(m); c.setZero(); checkAll(m); MM e(c); e = m; checkAll(e); break; }
            case 6: if (s.below(4) == 0) { m.setZero(); for (auto &q : model) q.second.setZero(); } break;
            default: { MM c(m); m = std::move(c); }
        }
        checkAll(m);
    }
    s.note([&](std::ostream &o) { o << keys << " keys, " << rows << " rows:" << done; });
}
FACET("matrix maps", 2) {
    switch (s.below(4)) {
        case 0: maps<int, double>(s); break;
        case 1: maps<std::string, double>(s); break;
        case 2: maps<const void *, double>(s); break;
        default: maps<int, float>(s);
    }
}
}  // namespace
