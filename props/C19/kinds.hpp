#pragma once
#include "ext.hpp"
namespace ext {
template <typename I> using MRot = wave::MatrixRotation<I>; template <typename I> using QRot = wave::QuaternionRotation<I>;
template <typename I> using MTr = wave::MatrixRigidTransform<I>; template <typename I, typename J> using CTr = wave::CompactRigidTransform<I, J>;
template <template <typename> class L, typename I, typename Twin, typename Kit, bool Const = false> void run(pbt::Source &s) { history<One<L<I>, I>, Twin, Kit, Const>(s); }
template <template <typename> class L, typename I, typename Twin, typename Kit> void framed2(pbt::Source &s) { history<One<F2<L<I>>, I>, F2<Twin>, Kit, false, FOthers>(s); }
template <template <typename> class L, typename I, typename Twin, typename Kit> void framed3(pbt::Source &s) { history<One<F3<L<I>>, I>, F3<Twin>, Kit, false, FOthers>(s); }
using V12 = Eigen::Matrix<double, 12, 1>; using VX = Eigen::VectorXd; using MX = Eigen::MatrixXd;
using StridedV3 = Map<V3, 0, InnerStride<2>>;
using Rm = wave::RotationMd; using Rq = wave::RotationQd; using Pd = wave::Translationd; using Wd = wave::RelativeRotationd; using Od = wave::Pointd; using Xd = wave::Twistd; using Tm = wave::RigidTransformMd; using Tq = wave::RigidTransformQd;
}
