// Exposes templates of the library that its own bindings do not export, so
// that monitors can evaluate them. Compiled from the repository's headers.
#include <bundle/error/projection_errors.h>
#include <ceres/autodiff_cost_function.h>
#include <foundation/python_types.h>
#include <foundation/union_find.h>
#include <geometry/camera_instances.h>
#include <geometry/covariance.h>
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

namespace py = pybind11;
using geometry::ProjectionType;

namespace {
using RowMat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;

template <class F>
struct HasForward {
  static VecXd Forward(const VecXd& in, const VecXd& p) {
    VecXd out(F::OutSize);
    F::template Forward<double>(in.data(), p.data(), out.data());
    return out;
  }
  template <bool D>
  static std::pair<VecXd, RowMat> Derivatives(const VecXd& in, const VecXd& p) {
    VecXd out(F::OutSize);
    RowMat jac(F::OutSize, F::template Stride<D>());
    jac.setConstant(std::numeric_limits<double>::quiet_NaN());
    F::template ForwardDerivatives<double, D>(in.data(), p.data(), out.data(), jac.data());
    return std::make_pair(out, RowMat(jac));
  }
};

template <class FN>
auto WithFunctor(const std::string& name, FN fn) {
#define VP(F) \
  if (name == #F) return fn(geometry::F());
  VP(Disto2) VP(Disto24) VP(Disto2468) VP(Disto62) VP(Disto624) VP(DistoBrown)
  VP(Affine) VP(UniformScale) VP(Identity) VP(PoseFunctor) VP(Normalize)
  VP(FisheyeProjection) VP(PerspectiveProjection) VP(DualProjection) VP(SphericalProjection)
  VP(PerspectiveCamera) VP(RadialCamera) VP(SimpleRadialCamera) VP(BrownCamera)
  VP(FisheyeCamera) VP(FisheyeOpencvCamera) VP(Fisheye62Camera) VP(Fisheye624Camera)
  VP(DualCamera) VP(SphericalCamera)
#undef VP
  throw std::runtime_error("no such functor");
}

VecXd FunctorForward(const std::string& name, const VecXd& in, const VecXd& p) {
  return WithFunctor(name, [&](auto f) { return HasForward<decltype(f)>::Forward(in, p); });
}

std::pair<VecXd, MatXd> FunctorDerivatives(const std::string& name, bool params, const VecXd& in, const VecXd& p) {
  auto r = WithFunctor(name, [&](auto f) {
    return params ? HasForward<decltype(f)>::template Derivatives<true>(in, p)
                  : HasForward<decltype(f)>::template Derivatives<false>(in, p);
  });
  return std::make_pair(r.first, MatXd(r.second));
}

// composed derivatives as the cost functions use them
std::pair<VecXd, MatXd> Dispatched(const std::string& what, ProjectionType type, const VecXd& in,
                                   const VecXd& p, int out_size, int stride) {
  VecXd out(out_size);
  RowMat jac(out_size, stride);
  jac.setConstant(std::numeric_limits<double>::quiet_NaN());
  if (what == "project") {
    geometry::Dispatch<geometry::ProjectDerivativesFunction>(type, in.data(), p.data(), out.data(), jac.data());
  } else if (what == "pose") {
    geometry::Dispatch<geometry::ProjectPoseDerivatives>(type, in.data(), p.data(), out.data(), jac.data());
  } else if (what == "pose_point") {
    geometry::Dispatch<geometry::ProjectPosePointDerivatives>(type, in.data(), p.data(), out.data(), jac.data());
  } else if (what == "rig") {
    geometry::Dispatch<geometry::ProjectRigPoseDerivatives>(type, in.data(), p.data(), out.data(), jac.data());
  } else if (what == "pose_normalized") {
    geometry::Dispatch<geometry::PoseNormalizedDerivatives>(type, in.data(), p.data(), out.data(), jac.data());
  } else if (what == "rig_normalized") {
    geometry::Dispatch<geometry::RigPoseNormalizedDerivatives>(type, in.data(), p.data(), out.data(), jac.data());
  } else {
    throw std::runtime_error("no such composition");
  }
  return std::make_pair(out, MatXd(jac));
}

struct Residual {
  VecXd residuals, residuals_only;
  std::vector<MatXd> jacobians;
};

py::tuple Evaluate(const ceres::CostFunction& f, const std::vector<VecXd>& blocks) {
  const int n = f.num_residuals();
  std::vector<const double*> params;
  std::vector<RowMat> jac;
  std::vector<double*> pjac;
  for (const auto& b : blocks) {
    params.push_back(b.data());
    jac.emplace_back(RowMat::Constant(n, b.size(), std::numeric_limits<double>::quiet_NaN()));
  }
  for (auto& j : jac) {
    pjac.push_back(j.data());
  }
  VecXd r(n), r0(n);
  f.Evaluate(params.data(), r0.data(), nullptr);
  f.Evaluate(params.data(), r.data(), pjac.data());
  std::vector<MatXd> out;
  for (auto& j : jac) {
    out.emplace_back(j);
  }
  return py::make_tuple(r0, r, out);
}

template <int C>
py::tuple Analytic(bool analytic, ProjectionType type, const Vec2d& obs, double sigma, bool rig,
                   const std::vector<VecXd>& blocks) {
  if (analytic) {
    bundle::ReprojectionError2DAnalytic<C> f(type, obs, sigma, rig);
    return Evaluate(f, blocks);
  }
  ceres::AutoDiffCostFunction<bundle::ReprojectionError2D, 2, C, 6, 6, 3> f(
      new bundle::ReprojectionError2D(type, obs, sigma, rig));
  return Evaluate(f, blocks);
}

py::tuple Reprojection(bool analytic, ProjectionType type, const Vec2d& obs, double sigma, bool rig,
                       const std::vector<VecXd>& blocks) {
  if (type == ProjectionType::SPHERICAL) {
    if (analytic) {
      bundle::ReprojectionError3DAnalytic f(type, obs, sigma, rig);
      return Evaluate(f, blocks);
    }
    ceres::AutoDiffCostFunction<bundle::ReprojectionError3D, 3, 1, 6, 6, 3> f(
        new bundle::ReprojectionError3D(type, obs, sigma, rig));
    return Evaluate(f, blocks);
  }
  switch (blocks[0].size()) {
    case 3: return Analytic<3>(analytic, type, obs, sigma, rig, blocks);
    case 4: return Analytic<4>(analytic, type, obs, sigma, rig, blocks);
    case 5: return Analytic<5>(analytic, type, obs, sigma, rig, blocks);
    case 6: return Analytic<6>(analytic, type, obs, sigma, rig, blocks);
    case 8: return Analytic<8>(analytic, type, obs, sigma, rig, blocks);
    case 9: return Analytic<9>(analytic, type, obs, sigma, rig, blocks);
    case 12: return Analytic<12>(analytic, type, obs, sigma, rig, blocks);
    case 16: return Analytic<16>(analytic, type, obs, sigma, rig, blocks);
  }
  throw std::runtime_error("unexpected number of camera parameters");
}

// distort then undistort, as the camera models compose them
VecXd Undistort(const std::string& name, const VecXd& in, const VecXd& p) {
  VecXd out(2);
  if (name == "Disto2") geometry::Disto2::Backward(in.data(), p.data(), out.data());
  else if (name == "Disto24") geometry::Disto24::Backward(in.data(), p.data(), out.data());
  else if (name == "Disto2468") geometry::Disto2468::Backward(in.data(), p.data(), out.data());
  else if (name == "Disto62") geometry::Disto62::Backward(in.data(), p.data(), out.data());
  else if (name == "Disto624") geometry::Disto624::Backward(in.data(), p.data(), out.data());
  else if (name == "DistoBrown") geometry::DistoBrown::Backward(in.data(), p.data(), out.data());
  else throw std::runtime_error("no such distortion");
  return out;
}
}  // namespace

PYBIND11_MODULE(vprobe, m) {
  m.def("forward", FunctorForward);
  m.def("derivatives", FunctorDerivatives);
  m.def("dispatched", Dispatched);
  m.def("reprojection", Reprojection);
  m.def("undistort", Undistort);
  m.def("point_jacobian", [](const geometry::Camera& c, const geometry::Pose& p, const Vec2d& obs, const Vec3d& x) {
    const auto r = geometry::covariance::ComputeJacobianReprojectionError(c, p, obs, x);
    return std::make_pair(MatXd(r.first), VecXd(r.second));
  });
  m.def("point_inverse_covariance", [](const std::vector<geometry::Camera>& c, const std::vector<geometry::Pose>& p,
                                       const MatX2d& obs, const Vec3d& x) {
    std::vector<Vec2d> o;
    for (int i = 0; i < obs.rows(); ++i) o.push_back(obs.row(i));
    const auto r = geometry::covariance::ComputePointInverseCovariance(c, p, o, x);
    return std::make_pair(MatXd(r.first), r.second);
  });
  // union-find: returns the representative of every element after the unions
  m.def("union_find", [](int n, const std::vector<std::pair<int, int>>& unions) {
    std::vector<std::unique_ptr<UnionFindElement<int>>> e;
    for (int i = 0; i < n; ++i) e.emplace_back(new UnionFindElement<int>(i));
    for (const auto& u : unions) Union(e[u.first].get(), e[u.second].get());
    std::vector<int> out;
    for (auto& x : e) out.push_back(Find(x.get())->data);
    return out;
  });
}
