// Leaves over memory at any address a double may have
#pragma once
#include "modes.hpp"
namespace odd {
struct Mem {
    alignas(64) double mem[40];
    double *at;
    template <typename B> Mem(pbt::Source &s, const B &b) : at(mem + s.below(8)) { std::copy(b.data(), b.data() + b.size(), at); }
    Mem(const Mem &) = delete;
};
template <typename E> struct Map_ { Mem m; Eigen::Map<E> map; template <typename B> Map_(pbt::Source &s, const B &b) : m(s, b), map(m.at) {} };
// by default a leaf owns its value
template <typename L> struct Held { const L leaf; Held(pbt::Source &, const L &l) : leaf(l) {} };
#define ODD(Leaf, Mapped, Value, data)                                                                    \
    template <> struct Held<Leaf> {                                                                       \
        Map_<Value> m; const Mapped<Eigen::Map<Value>> leaf;                                              \
        Held(pbt::Source &s, const Leaf &l) : m(s, l.value() data), leaf{m.map} {}                        \
    };
using V6 = Eigen::Matrix<double, 6, 1>;
ODD(wave::RotationMd, wave::MatrixRotation, Eigen::Matrix3d, )
ODD(wave::RotationQd, wave::QuaternionRotation, Eigen::Quaterniond, .coeffs())
ODD(wave::RigidTransformMd, wave::MatrixRigidTransform, Eigen::Matrix4d, )
ODD(wave::Translationd, wave::Translation, Eigen::Vector3d, )
ODD(wave::RelativeRotationd, wave::RelativeRotation, Eigen::Vector3d, )
ODD(wave::Pointd, wave::Point, Eigen::Vector3d, )
ODD(wave::Twistd, wave::Twist, V6, )
#undef ODD
}  // namespace odd
