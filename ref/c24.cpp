// Reference specification for C24: disturbance laws (parsed, never compiled to code or run).
#include <cmath>
#include "disturbances/air_drag.hpp"
#include "math_physics/gravity/gravity_potential.hpp"
#include "disturbances/disturbances.hpp"
#include "disturbances/geopotential.hpp"
#include "disturbances/gravity_gradient.hpp"
#include "disturbances/lunar_gravity_field.hpp"
#include "disturbances/magnetic_disturbance.hpp"
#include "disturbances/solar_radiation_pressure_disturbance.hpp"
#include "disturbances/third_body_gravity.hpp"
#include "environment/global/physical_constants.hpp"
#include "math_physics/math/constants.hpp"
namespace ref {
using namespace s2e;
using namespace s2e::disturbances;
using environment::LocalEnvironment;
using dynamics::Dynamics;
typedef math::Vector<3> V3;
typedef math::Matrix<3, 3> M33;

// ---- base class: a disabled disturbance contributes nothing
//= s2e::disturbances::Disturbance::Disturbance
void DisturbanceCtor(Disturbance* self, const bool enabled, const bool attitude) {
  self->is_calculation_enabled_ = enabled;
  self->is_attitude_dependent_ = attitude;
  self->force_b_N_ = V3(0.0);
  self->torque_b_Nm_ = V3(0.0);
  self->acceleration_b_m_s2_ = V3(0.0);
  self->acceleration_i_m_s2_ = V3(0.0);
}
//= s2e::disturbances::Disturbance::UpdateIfEnabled
void UpdateIfEnabled(Disturbance* self, const LocalEnvironment& l, const Dynamics& d) {
  if (!self->is_calculation_enabled_) {
    self->force_b_N_ = V3(0.0);
    self->torque_b_Nm_ = V3(0.0);
    self->acceleration_b_m_s2_ = V3(0.0);
    self->acceleration_i_m_s2_ = V3(0.0);
    return;
  }
  self->Update(l, d);
}
//= s2e::disturbances::Disturbance::GetTorque_b_Nm
V3 GetTorque(Disturbance* self) { return self->torque_b_Nm_; }
//= s2e::disturbances::Disturbance::GetForce_b_N
V3 GetForce(Disturbance* self) { return self->force_b_N_; }
//= s2e::disturbances::Disturbance::GetAcceleration_b_m_s2
V3 GetAccB(Disturbance* self) { return self->acceleration_b_m_s2_; }
//= s2e::disturbances::Disturbance::GetAcceleration_i_m_s2
V3 GetAccI(Disturbance* self) { return self->acceleration_i_m_s2_; }
//= s2e::disturbances::Disturbance::IsAttitudeDependent
bool IsAtt(Disturbance* self) { return self->is_attitude_dependent_; }

// ---- gravity gradient: 3 mu / r^3  u x (I u), u the unit vector towards the centre body
V3 GravityGradientTorque(GravityGradient* self, const V3& r, const M33& inertia) {
  const double n = r.CalcNorm();
  const V3 u = (1.0 / n) * r;
  return (3.0 * self->gravity_constant_m3_s2_ / (n * n * n)) * OuterProduct(u, inertia * u);
}
//= s2e::disturbances::GravityGradient::CalcTorque_b_Nm
V3 GgTorque(GravityGradient* self, const V3 r, const M33 inertia) {
  self->torque_b_Nm_ = GravityGradientTorque(self, r, inertia);
  return self->torque_b_Nm_;
}
//= s2e::disturbances::GravityGradient::Update
void GgUpdate(GravityGradient* self, const LocalEnvironment& l, const Dynamics& d) {
  self->torque_b_Nm_ = GravityGradientTorque(self, l.GetCelestialInformation().GetCenterBodyPositionFromSpacecraft_b_m(), d.GetAttitude().GetInertiaTensor_b_kgm2());
}
//= s2e::disturbances::GravityGradient::GravityGradient(constbool)
void GgCtor1(GravityGradient* self, const bool enabled) {
  DisturbanceCtor(self, enabled, true);
  self->gravity_constant_m3_s2_ = environment::earth_gravitational_constant_m3_s2;
}
//= s2e::disturbances::GravityGradient::GravityGradient(constdouble,constbool)
void GgCtor2(GravityGradient* self, const double mu, const bool enabled) {
  DisturbanceCtor(self, enabled, true);
  self->gravity_constant_m3_s2_ = mu;
}

// ---- third bodies: sum of mu (sr / |sr|^3 - s / |s|^3)
V3 ThirdBody(const V3& s, const V3& sr, const double mu) {
  const double a = sr.CalcNorm();
  const double b = s.CalcNorm();
  return (mu / (a * a * a)) * sr - (mu / (b * b * b)) * s;
}
//= s2e::disturbances::ThirdBodyGravity::CalcAcceleration_i_m_s2
V3 TbAcc(ThirdBodyGravity* self, const V3 s, const V3 sr, const double mu) { return ThirdBody(s, sr, mu); }
//= s2e::disturbances::ThirdBodyGravity::Update skip=third_body_acceleration_i_m_s2_ leaves=s2e::environment::LocalCelestialInformation::GetPositionFromSpacecraft_i_m,s2e::environment::CelestialInformation::GetGravityConstant_m3_s2
void TbUpdate(ThirdBodyGravity* self, const LocalEnvironment& l, const Dynamics& d) {
  V3 total(0.0);
  const environment::LocalCelestialInformation& ci = l.GetCelestialInformation();
  for (const std::string& body : self->third_body_list_) {
    const V3 sr = ci.GetPositionFromSpacecraft_i_m(body.c_str());
    const double mu = ci.GetGlobalInformation().GetGravityConstant_m3_s2(body.c_str());
    total = total + ThirdBody(d.GetOrbit().GetPosition_i_m() + sr, sr, mu);
  }
  self->acceleration_i_m_s2_ = total;
}
//= s2e::disturbances::ThirdBodyGravity::ThirdBodyGravity
void TbCtor(ThirdBodyGravity* self, std::set<std::string> list, const bool enabled) {
  DisturbanceCtor(self, enabled, false);
  self->third_body_list_ = list;
  self->third_body_acceleration_i_m_s2_ = V3(0.0);
}

// ---- surface forces
void Theta(SurfaceForce* self, const V3& in) {
  const V3 u = in.CalcNormalizedVector();
  for (size_t i = 0; i < self->surfaces_.size(); ++i) {
    const double c = InnerProduct(self->surfaces_[i].normal_b_, u);
    self->cos_theta_[i] = c;
    self->sin_theta_[i] = sqrt(1.0 - c * c);
  }
}
//= s2e::disturbances::SurfaceForce::CalcTheta
void SfTheta(SurfaceForce* self, V3& in) { Theta(self, in); }
//= s2e::disturbances::SurfaceForce::CalcTorqueForce
V3 SfTorqueForce(SurfaceForce* self, V3& in, double item) {
  Theta(self, in);
  self->CalcCoefficients(in, item);
  const V3 u = in.CalcNormalizedVector();
  V3 force(0.0), torque(0.0);
  for (size_t i = 0; i < self->surfaces_.size(); ++i) {
    if (!(self->cos_theta_[i] > 0.0)) continue;
    const V3 n = self->surfaces_[i].normal_b_;
    const V3 t = OuterProduct(OuterProduct(u, n).CalcNormalizedVector(), n);
    const V3 f = self->tangential_coefficients_[i] * t - self->normal_coefficients_[i] * n;
    force = force + f;
    torque = torque + OuterProduct(self->surfaces_[i].position_b_m_ - self->center_of_gravity_b_m_, f);
  }
  self->force_b_N_ = force;
  self->torque_b_Nm_ = torque;
  return torque;
}
//= s2e::disturbances::SurfaceForce::SurfaceForce skip=ret
void SfCtor(SurfaceForce* self, const std::vector<spacecraft::Surface>& surfaces, const V3& cog, const bool enabled) {
  DisturbanceCtor(self, enabled, true);
  const_cast<std::vector<spacecraft::Surface>&>(self->surfaces_) = surfaces;
  const_cast<V3&>(self->center_of_gravity_b_m_) = cog;
  self->normal_coefficients_.assign(surfaces.size(), 0.0);
  self->tangential_coefficients_.assign(surfaces.size(), 0.0);
  self->cos_theta_.assign(surfaces.size(), 0.0);
  self->sin_theta_.assign(surfaces.size(), 0.0);
}

// ---- solar radiation pressure
//= s2e::disturbances::SolarRadiationPressureDisturbance::CalcCoefficients
void SrpCoef(SolarRadiationPressureDisturbance* self, const V3& in, const double pressure) {
  for (size_t i = 0; i < self->surfaces_.size(); ++i) {
    const double pa = pressure * self->surfaces_[i].area_m2_;
    const double re = self->surfaces_[i].reflectivity_;
    const double sp = self->surfaces_[i].specularity_;
    const double c = self->cos_theta_[i];
    self->normal_coefficients_[i] = pa * ((1.0 + re * sp) * c * c + (2.0 / 3.0) * re * (1.0 - sp) * c);
    self->tangential_coefficients_[i] = pa * (1.0 - re * sp) * c * self->sin_theta_[i];
  }
}
//= s2e::disturbances::SolarRadiationPressureDisturbance::Update leaves=s2e::disturbances::SurfaceForce::CalcTorqueForce
void SrpUpdate(SolarRadiationPressureDisturbance* self, const LocalEnvironment& l, const Dynamics& d) {
  V3 sun = l.GetCelestialInformation().GetPositionFromSpacecraft_b_m("SUN");
  self->CalcTorqueForce(sun, l.GetSolarRadiationPressure().solar_radiation_pressure_N_m2_ * l.GetSolarRadiationPressure().shadow_coefficient_);
}

// ---- air drag
//= s2e::disturbances::AirDrag::Update leaves=s2e::disturbances::SurfaceForce::CalcTorqueForce
void AdUpdate(AirDrag* self, const LocalEnvironment& l, const Dynamics& d) {
  const V3 v_i = l.GetCelestialInformation().GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef().Transpose() * d.GetOrbit().GetVelocity_ecef_m_s();
  V3 v_b = d.GetAttitude().GetQuaternion_i2b().FrameConversion(v_i);
  self->CalcTorqueForce(v_b, l.GetAtmosphere().GetAirDensity_kg_m3());
}
double Pi(const double s) { return s * exp(-s * s) + sqrt(math::pi) * (s * s + 0.5) * (1.0 + erf(s)); }
double Chi(const double s) { return exp(-s * s) + sqrt(math::pi) * s * (1.0 + erf(s)); }
//= s2e::disturbances::AirDrag::CalcFunctionPi
double AdPi(AirDrag* self, const double s) { return Pi(s); }
//= s2e::disturbances::AirDrag::CalcFunctionChi
double AdChi(AirDrag* self, const double s) { return Chi(s); }
void CnCt(AirDrag* self, const V3& v_b) {
  const double v = v_b.CalcNorm();
  const double s = sqrt(self->molecular_weight_g_mol_ * 1.0e-3 / environment::avogadro_constant_mol * v * v / (2.0 * environment::boltzmann_constant_J_K * self->wall_temperature_K_));
  for (size_t i = 0; i < self->surfaces_.size(); ++i) {
    const double sn = s * self->cos_theta_[i], st = s * self->sin_theta_[i];
    const double sigma = 1.0 - self->surfaces_[i].air_specularity_;
    self->cn_[i] = ((2.0 - sigma) / sqrt(math::pi) * Pi(sn) + sigma / 2.0 * Chi(sn) * sqrt(self->wall_temperature_K_ / self->molecular_temperature_K_)) / (s * s);
    self->ct_[i] = sigma * st * Chi(sn) / (sqrt(math::pi) * s * s);
  }
}
//= s2e::disturbances::AirDrag::CalcCnCt
void AdCnCt(AirDrag* self, const V3& v_b) { CnCt(self, v_b); }
//= s2e::disturbances::AirDrag::CalcCoefficients
void AdCoef(AirDrag* self, const V3& v_b, const double rho) {
  CnCt(self, v_b);
  const double v = v_b.CalcNorm();
  for (size_t i = 0; i < self->surfaces_.size(); ++i) {
    const double q = rho * v * v / 2.0 * self->surfaces_[i].area_m2_;
    self->normal_coefficients_[i] = q * self->cn_[i];
    self->tangential_coefficients_[i] = q * self->ct_[i];
  }
}

// ---- residual magnetic moment: torque = m x B, B converted from nT to T
//= s2e::disturbances::MagneticDisturbance::Update
void MagUpdate(MagneticDisturbance* self, const LocalEnvironment& l, const Dynamics& d) {
  V3 m = self->residual_magnetic_moment_.constant_value_b_Am2_;
  for (int i = 0; i < 3; ++i) m[i] = m[i] + self->random_walk_[i] + (double)self->random_noise_;
  ++self->random_walk_;
  self->rmm_b_Am2_ = m;
  self->torque_b_Nm_ = 1.0e-9 * OuterProduct(m, l.GetGeomagneticField().magnetic_field_b_nT_);
}

// ---- gravity fields
//= s2e::disturbances::Geopotential::Update leaves=s2e::gravity::GravityPotential::CalcAcceleration_xcxf_m_s2
void GeoUpdate(Geopotential* self, const LocalEnvironment& l, const Dynamics& d) {
  self->acceleration_ecef_m_s2_ = self->geopotential_.CalcAcceleration_xcxf_m_s2(d.GetOrbit().GetPosition_ecef_m());
  self->acceleration_i_m_s2_ = l.GetCelestialInformation().GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef().Transpose() * self->acceleration_ecef_m_s2_;
}
//= s2e::disturbances::LunarGravityField::Update leaves=s2e::gravity::GravityPotential::CalcAcceleration_xcxf_m_s2
void LunUpdate(LunarGravityField* self, const LocalEnvironment& l, const Dynamics& d) {
  const M33 dcm = l.GetCelestialInformation().GetGlobalInformation().GetMoonRotation().GetDcmJ2000ToMcmf();
  self->acceleration_mcmf_m_s2_ = self->lunar_potential_.CalcAcceleration_xcxf_m_s2(dcm * d.GetOrbit().GetPosition_i_m());
  self->acceleration_i_m_s2_ = dcm.Transpose() * self->acceleration_mcmf_m_s2_;
}
}  // namespace ref

// ---------------------------------------------------------------- math_physics/gravity/gravity_potential.cpp
namespace s2e::gravity::ref {
//= s2e::gravity::GravityPotential::GravityPotential(constunsignedlong,conststd::vector<std::vector<double,std::allocator<double>>,std::allocator<std::vector<double,std::allocator<double>>>>,conststd::vector<std::vector<double,std::allocator<double>>,std::allocator<std::vector<double,std::allocator<double>>>>,constdouble,constdouble)
void GravityPotential_Ctor(GravityPotential* self, const size_t degree, const std::vector<std::vector<double>> cosine_coefficients, const std::vector<std::vector<double>> sine_coefficients, const double gravity_constants_m3_s2, const double center_body_radius_m) {
  self->degree_ = degree;
  self->n_ = 0;
  self->m_ = 0;
  self->c_ = cosine_coefficients;
  self->s_ = sine_coefficients;
  self->gravity_constants_m3_s2_ = gravity_constants_m3_s2;
  self->center_body_radius_m_ = center_body_radius_m;
  self->radius_m_ = 0.0;
  self->xcxf_x_m_ = 0.0;
  self->xcxf_y_m_ = 0.0;
  self->xcxf_z_m_ = 0.0;

  // degree
  if (self->degree_ <= 1) {  // TODO: Consider this assertion is needed
    self->degree_ = 0;
  }
  // coefficients
  // TODO Check size
}
//= s2e::gravity::GravityPotential::CalcAcceleration_xcxf_m_s2
math::Vector<3> GravityPotential_CalcAcceleration_xcxf_m_s2(GravityPotential* self, const math::Vector<3> &position_xcxf_m) {
  math::Vector<3> acceleration_xcxf_m_s2(0.0);
  if (self->degree_ <= 0) return acceleration_xcxf_m_s2;  // TODO: Consider this assertion is needed

  self->xcxf_x_m_ = position_xcxf_m[0];
  self->xcxf_y_m_ = position_xcxf_m[1];
  self->xcxf_z_m_ = position_xcxf_m[2];
  self->radius_m_ = position_xcxf_m.CalcNorm();

  // Calc V and W
  const size_t degree_vw = self->degree_ + 1;
  std::vector<std::vector<double>> v(degree_vw + 1, std::vector<double>(degree_vw + 1, 0.0));
  std::vector<std::vector<double>> w(degree_vw + 1, std::vector<double>(degree_vw + 1, 0.0));
  // n = m = 0
  v[0][0] = self->center_body_radius_m_ / self->radius_m_;
  w[0][0] = 0.0;
  self->m_ = 0;

  while (self->m_ < degree_vw) {
    for (self->n_ = self->m_ + 1; self->n_ <= degree_vw; self->n_++) {
      if (self->n_ <= self->m_ + 1) {
        self->v_w_nm_update(&v[self->n_][self->m_], &w[self->n_][self->m_], v[self->n_ - 1][self->m_], w[self->n_ - 1][self->m_], 0.0, 0.0);
      } else {
        self->v_w_nm_update(&v[self->n_][self->m_], &w[self->n_][self->m_], v[self->n_ - 1][self->m_], w[self->n_ - 1][self->m_], v[self->n_ - 2][self->m_], w[self->n_ - 2][self->m_]);
      }
    }
    // next step
    self->m_++;
    self->n_ = self->m_;
    self->v_w_nn_update(&v[self->n_][self->m_], &w[self->n_][self->m_], v[self->n_ - 1][self->m_ - 1], w[self->n_ - 1][self->m_ - 1]);
  }

  // Calc Acceleration
  for (self->n_ = 0; self->n_ <= self->degree_; self->n_++)  // this loop can integrate with previous loop
  {
    self->m_ = 0;
    const double n_d = (double)self->n_;
    const double normalize = sqrt((2.0 * n_d + 1.0) / (2.0 * n_d + 3.0));
    const double normalize_xy = normalize * sqrt((n_d + 2.0) * (n_d + 1.0) / 2.0);
    // m_==0
    acceleration_xcxf_m_s2[0] += -self->c_[self->n_][0] * v[self->n_ + 1][1] * normalize_xy;
    acceleration_xcxf_m_s2[1] += -self->c_[self->n_][0] * w[self->n_ + 1][1] * normalize_xy;
    acceleration_xcxf_m_s2[2] += (self->n_ + 1.0) * (-self->c_[self->n_][0] * v[self->n_ + 1][0] - self->s_[self->n_][0] * w[self->n_ + 1][0]) * normalize;
    for (self->m_ = 1; self->m_ <= self->n_; self->m_++) {
      const double m_d = (double)self->m_;
      const double factorial = (n_d - m_d + 1.0) * (n_d - m_d + 2.0);
      const double normalize_xy1 = normalize * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0));
      double normalize_xy2;
      if (self->m_ == 1) {
        normalize_xy2 = normalize * sqrt(factorial) * sqrt(2.0);
      } else {
        normalize_xy2 = normalize * sqrt(factorial);
      }
      const double normalize_z = normalize * sqrt((n_d + m_d + 1.0) / (n_d - m_d + 1.0));

      acceleration_xcxf_m_s2[0] += 0.5 * (normalize_xy1 * (-self->c_[self->n_][self->m_] * v[self->n_ + 1][self->m_ + 1] - self->s_[self->n_][self->m_] * w[self->n_ + 1][self->m_ + 1]) +
                                          normalize_xy2 * (self->c_[self->n_][self->m_] * v[self->n_ + 1][self->m_ - 1] + self->s_[self->n_][self->m_] * w[self->n_ + 1][self->m_ - 1]));
      acceleration_xcxf_m_s2[1] += 0.5 * (normalize_xy1 * (-self->c_[self->n_][self->m_] * w[self->n_ + 1][self->m_ + 1] + self->s_[self->n_][self->m_] * v[self->n_ + 1][self->m_ + 1]) +
                                          normalize_xy2 * (-self->c_[self->n_][self->m_] * w[self->n_ + 1][self->m_ - 1] + self->s_[self->n_][self->m_] * v[self->n_ + 1][self->m_ - 1]));
      acceleration_xcxf_m_s2[2] += (n_d - m_d + 1.0) * (-self->c_[self->n_][self->m_] * v[self->n_ + 1][self->m_] - self->s_[self->n_][self->m_] * w[self->n_ + 1][self->m_]) * normalize_z;
    }
  }
  acceleration_xcxf_m_s2 *= self->gravity_constants_m3_s2_ / pow(self->center_body_radius_m_, 2.0);

  return acceleration_xcxf_m_s2;
}
//= s2e::gravity::GravityPotential::CalcPartialDerivative_xcxf_s2
math::Matrix<3, 3> GravityPotential_CalcPartialDerivative_xcxf_s2(GravityPotential* self, const math::Vector<3> &position_xcxf_m) {
  math::Matrix<3, 3> partial_derivative(0.0);
  if (self->degree_ <= 0) return partial_derivative;

  self->xcxf_x_m_ = position_xcxf_m[0];
  self->xcxf_y_m_ = position_xcxf_m[1];
  self->xcxf_z_m_ = position_xcxf_m[2];
  self->radius_m_ = position_xcxf_m.CalcNorm();

  // Calc V and W
  const size_t degree_vw = self->degree_ + 2;
  std::vector<std::vector<double>> v(degree_vw + 1, std::vector<double>(degree_vw + 1, 0.0));
  std::vector<std::vector<double>> w(degree_vw + 1, std::vector<double>(degree_vw + 1, 0.0));
  // n = m = 0
  v[0][0] = self->center_body_radius_m_ / self->radius_m_;
  w[0][0] = 0.0;
  self->m_ = 0;
  while (self->m_ < degree_vw) {
    for (self->n_ = self->m_ + 1; self->n_ <= degree_vw; self->n_++) {
      if (self->n_ <= self->m_ + 1) {
        self->v_w_nm_update(&v[self->n_][self->m_], &w[self->n_][self->m_], v[self->n_ - 1][self->m_], w[self->n_ - 1][self->m_], 0.0, 0.0);
      } else {
        self->v_w_nm_update(&v[self->n_][self->m_], &w[self->n_][self->m_], v[self->n_ - 1][self->m_], w[self->n_ - 1][self->m_], v[self->n_ - 2][self->m_], w[self->n_ - 2][self->m_]);
      }
    }
    // next step
    self->m_++;
    self->n_ = self->m_;
    self->v_w_nn_update(&v[self->n_][self->m_], &w[self->n_][self->m_], v[self->n_ - 1][self->m_ - 1], w[self->n_ - 1][self->m_ - 1]);
  }

  // Calc partial derivatives
  for (self->n_ = 0; self->n_ <= self->degree_; self->n_++)  // this loop can integrate with previous loop
  {
    const double n_d = (double)self->n_;

    // C_n_0 * V_n+2_m
    const double normalize_cn0_v20 = sqrt((2.0 * n_d + 1.0) / (2.0 * n_d + 5.0));
    const double normalize_cn0_v21 = normalize_cn0_v20 * sqrt((n_d + 2.0) * (n_d + 3.0) / 2.0);
    const double normalize_cn0_v22 = normalize_cn0_v20 * sqrt((n_d + 1.0) * (n_d + 2.0) * (n_d + 3.0) * (n_d + 4.0) / 2.0);

    for (self->m_ = 0; self->m_ <= self->n_; self->m_++) {
      const double m_d = (double)self->m_;

      // dx/dx, dx/dy, dy/dy
      if (self->m_ == 0) {
        partial_derivative[0][0] +=
            0.5 * (self->c_[self->n_][0] * v[self->n_ + 2][2] * normalize_cn0_v22 - self->c_[self->n_][0] * v[self->n_ + 2][0] * (n_d + 1.0) * (n_d + 2.0) * normalize_cn0_v20);
        partial_derivative[1][1] +=
            0.5 * (-self->c_[self->n_][0] * v[self->n_ + 2][2] * normalize_cn0_v22 - self->c_[self->n_][0] * v[self->n_ + 2][0] * (n_d + 1.0) * (n_d + 2.0) * normalize_cn0_v20);

        partial_derivative[0][1] += 0.5 * (self->c_[self->n_][0] * w[self->n_ + 2][2] * normalize_cn0_v22);
      } else if (self->m_ == 1) {
        const double normalize_cn1_v21 = normalize_cn0_v20 * sqrt((n_d + 2.0) * (n_d + 3.0) / (n_d * (n_d + 1.0)));
        const double normalize_cn1_v21_with_coeff = n_d * (n_d + 1.0) * normalize_cn1_v21;
        const double normalize_cn1_v23 = normalize_cn0_v20 * sqrt((n_d + 2.0) * (n_d + 3.0) * (n_d + 4.0) * (n_d + 5.0));

        partial_derivative[0][0] += 0.25 * ((self->c_[self->n_][1] * v[self->n_ + 2][3] + self->s_[self->n_][1] * w[self->n_ + 2][3]) * normalize_cn1_v23 -
                                            (3.0 * self->c_[self->n_][1] * v[self->n_ + 2][1] + self->s_[self->n_][1] * w[self->n_ + 2][1]) * normalize_cn1_v21_with_coeff);
        partial_derivative[1][1] += 0.25 * ((-self->c_[self->n_][1] * v[self->n_ + 2][3] - self->s_[self->n_][1] * w[self->n_ + 2][3]) * normalize_cn1_v23 -
                                            (self->c_[self->n_][1] * v[self->n_ + 2][1] + 3.0 * self->s_[self->n_][1] * w[self->n_ + 2][1]) * normalize_cn1_v21_with_coeff);

        partial_derivative[0][1] += 0.25 * ((self->c_[self->n_][1] * w[self->n_ + 2][3] - self->s_[self->n_][1] * v[self->n_ + 2][3]) * normalize_cn1_v23 -
                                            (self->c_[self->n_][1] * w[self->n_ + 2][1] + self->s_[self->n_][1] * v[self->n_ + 2][1]) * normalize_cn1_v21_with_coeff);
      } else if (self->m_ == 2) {
        double normalize_cnm_v2p2 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) * (n_d + m_d + 3.0) * (n_d + m_d + 4.0));
        double normalize_cnm_v2m2 = normalize_cn0_v20 * sqrt(2.0 / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0) * (n_d - m_d + 4.0)));
        double normalize_cnm_v2m2_with_coeff = (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0) * (n_d - m_d + 4.0) * normalize_cnm_v2m2;
        double normalize_cnm_v20 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0)));
        double normalize_cnm_v20_with_coeff = 2.0 * (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * normalize_cnm_v20;

        partial_derivative[0][0] += 0.25 * ((self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 2] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 2]) * normalize_cnm_v2p2 -
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_]) * normalize_cnm_v20_with_coeff +
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 2] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 2]) * normalize_cnm_v2m2_with_coeff);
        partial_derivative[1][1] += 0.25 * ((-self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 2] - self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 2]) * normalize_cnm_v2p2 -
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_]) * normalize_cnm_v20_with_coeff -
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 2] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 2]) * normalize_cnm_v2m2_with_coeff);
        partial_derivative[0][1] += 0.25 * ((self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 2] - self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 2]) * normalize_cnm_v2p2 +
                                            (-self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 2] + self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 2]) * normalize_cnm_v2m2_with_coeff);
      } else {
        double normalize_cnm_v2p2 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) * (n_d + m_d + 3.0) * (n_d + m_d + 4.0));
        double normalize_cnm_v2m2 = normalize_cn0_v20 * sqrt(1.0 / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0) * (n_d - m_d + 4.0)));
        double normalize_cnm_v2m2_with_coeff = (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0) * (n_d - m_d + 4.0) * normalize_cnm_v2m2;
        double normalize_cnm_v20 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0)));
        double normalize_cnm_v20_with_coeff = 2.0 * (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * normalize_cnm_v20;

        partial_derivative[0][0] += 0.25 * ((self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 2] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 2]) * normalize_cnm_v2p2 -
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_]) * normalize_cnm_v20_with_coeff +
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 2] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 2]) * normalize_cnm_v2m2_with_coeff);
        partial_derivative[1][1] += 0.25 * ((-self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 2] - self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 2]) * normalize_cnm_v2p2 -
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_]) * normalize_cnm_v20_with_coeff -
                                            (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 2] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 2]) * normalize_cnm_v2m2_with_coeff);
        partial_derivative[0][1] += 0.25 * ((self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 2] - self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 2]) * normalize_cnm_v2p2 +
                                            (-self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 2] + self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 2]) * normalize_cnm_v2m2_with_coeff);
      }
      // dx/dz, dy/dz
      if (self->m_ == 0) {
        partial_derivative[0][2] += (n_d + 1.0) * (self->c_[self->n_][0] * v[self->n_ + 2][1] * normalize_cn0_v21);
        partial_derivative[1][2] += (n_d + 1.0) * (self->c_[self->n_][0] * w[self->n_ + 2][1] * normalize_cn0_v21);
      } else if (self->m_ == 1) {
        double normalize_cnm_v2p1 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) * (n_d + m_d + 3.0) / (n_d - m_d + 1.0));
        double normalize_cnm_v2p1_with_coeff = (n_d - m_d + 1.0) * normalize_cnm_v2p1;
        double normalize_cnm_v2m1 = normalize_cn0_v20 * sqrt(2.0 * (n_d + m_d + 1.0) / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0)));
        double normalize_cnm_v2m1_with_coeff = (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0) * normalize_cnm_v2m1;

        partial_derivative[0][2] += 0.5 * ((+self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 1] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 1]) * normalize_cnm_v2p1_with_coeff +
                                           (-self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 1] - self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 1]) * normalize_cnm_v2m1_with_coeff);
        partial_derivative[1][2] += 0.5 * ((+self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 1] - self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 1]) * normalize_cnm_v2p1_with_coeff +
                                           (+self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 1] - self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 1]) * normalize_cnm_v2m1_with_coeff);
      } else {
        double normalize_cnm_v2p1 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) * (n_d + m_d + 3.0) / (n_d - m_d + 1.0));
        double normalize_cnm_v2p1_with_coeff = (n_d - m_d + 1.0) * normalize_cnm_v2p1;
        double normalize_cnm_v2m1 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0)));
        double normalize_cnm_v2m1_with_coeff = (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * (n_d - m_d + 3.0) * normalize_cnm_v2m1;

        partial_derivative[0][2] += 0.5 * ((+self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 1] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 1]) * normalize_cnm_v2p1_with_coeff +
                                           (-self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 1] - self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 1]) * normalize_cnm_v2m1_with_coeff);
        partial_derivative[1][2] += 0.5 * ((+self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ + 1] - self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ + 1]) * normalize_cnm_v2p1_with_coeff +
                                           (+self->c_[self->n_][self->m_] * w[self->n_ + 2][self->m_ - 1] - self->s_[self->n_][self->m_] * v[self->n_ + 2][self->m_ - 1]) * normalize_cnm_v2m1_with_coeff);
      }
      // dz/dz
      double normalize_cnm_v20 = normalize_cn0_v20 * sqrt((n_d + m_d + 1.0) * (n_d + m_d + 2.0) / ((n_d - m_d + 1.0) * (n_d - m_d + 2.0)));
      double normalize_cnm_v20_with_coeff = (n_d - m_d + 1.0) * (n_d - m_d + 2.0) * normalize_cnm_v20;
      partial_derivative[2][2] += (self->c_[self->n_][self->m_] * v[self->n_ + 2][self->m_] + self->s_[self->n_][self->m_] * w[self->n_ + 2][self->m_]) * normalize_cnm_v20_with_coeff;
    }
  }
  // Symmetry property
  partial_derivative[1][0] = partial_derivative[0][1];
  partial_derivative[2][0] = partial_derivative[0][2];
  partial_derivative[2][1] = partial_derivative[1][2];

  // Multiply common coefficients
  partial_derivative *= self->gravity_constants_m3_s2_ / pow(self->center_body_radius_m_, 3.0);

  return partial_derivative;
}
//= s2e::gravity::GravityPotential::v_w_nn_update
void GravityPotential_v_w_nn_update(GravityPotential* self, double *v_nn, double *w_nn, const double v_prev, const double w_prev) {
  if (self->n_ != self->m_) return;

  const double n_d = (double)self->n_;

  const double tmp = self->center_body_radius_m_ / pow(self->radius_m_, 2.0);
  const double x_tmp = self->xcxf_x_m_ * tmp;
  const double y_tmp = self->xcxf_y_m_ * tmp;
  double c_normalize;
  if (self->n_ == 1) {
    c_normalize = (2.0 * n_d - 1.0) * sqrt(2.0 * n_d + 1.0);
  } else {
    c_normalize = sqrt((2.0 * n_d + 1.0) / (2.0 * n_d));
  }

  *v_nn = c_normalize * (x_tmp * v_prev - y_tmp * w_prev);
  *w_nn = c_normalize * (x_tmp * w_prev + y_tmp * v_prev);
  return;
}
//= s2e::gravity::GravityPotential::v_w_nm_update
void GravityPotential_v_w_nm_update(GravityPotential* self, double *v_nm, double *w_nm, const double v_prev, const double w_prev, const double v_prev2, const double w_prev2) {
  if (self->n_ == self->m_) return;

  const double m_d = (double)self->m_;
  const double n_d = (double)self->n_;

  const double tmp = self->center_body_radius_m_ / pow(self->radius_m_, 2.0);
  const double z_tmp = self->xcxf_z_m_ * tmp;
  const double re_tmp = self->center_body_radius_m_ * tmp;
  const double c1 = (2.0 * n_d - 1.0) / (n_d - m_d);
  const double c2 = (n_d + m_d - 1.0) / (n_d - m_d);
  double c_normalize, c2_normalize;

  c_normalize = sqrt(((2.0 * n_d + 1.0) * (n_d - m_d)) / ((2.0 * n_d - 1.0) * (n_d + m_d)));
  if (self->n_ <= 1) {
    c2_normalize = 1.0;
  } else {
    c2_normalize = sqrt(((2.0 * n_d - 1.0) * (n_d - m_d - 1.0)) / ((2.0 * n_d - 3.0) * (n_d + m_d - 1.0)));
  }

  *v_nm = c_normalize * (c1 * z_tmp * v_prev - c2 * c2_normalize * re_tmp * v_prev2);
  *w_nm = c_normalize * (c1 * z_tmp * w_prev - c2 * c2_normalize * re_tmp * w_prev2);
  return;
}
}

// ---------------------------------------------------------------- math_physics/gravity/gravity_potential.hpp
namespace s2e::gravity::ref {
//= s2e::gravity::GravityPotential::GravityPotential(constdouble,constdouble)
void GravityPotential_Ctor(GravityPotential* self, const double gravity_constants_m3_s2, const double center_body_radius_m) {
  self->degree_ = 0;
  self->n_ = 0;
  self->m_ = 0;
  self->gravity_constants_m3_s2_ = gravity_constants_m3_s2;
  self->center_body_radius_m_ = center_body_radius_m;
  self->radius_m_ = 0.0;
  self->xcxf_x_m_ = 0.0;
  self->xcxf_y_m_ = 0.0;
  self->xcxf_z_m_ = 0.0;
}
}

// ---------------------------------------------------------------- construction and settings of the disturbances
#include <fstream>
#include <iostream>
#include <sstream>
#include "base.hpp"
#include "math_physics/randomization/global_randomization.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
namespace s2e::disturbances::ref {
//= s2e::disturbances::MagneticDisturbance::MagneticDisturbance
void MagneticDisturbance_Ctor(MagneticDisturbance* self, const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled) {
  Disturbance_Ctor(self, is_calculation_enabled, true);
  MUT(self->kMagUnit_) = 1.0e-9;
  MUT(self->residual_magnetic_moment_) = rmm_params;
  self->random_walk_ = randomization::RandomWalk<3>(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()), math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2()));
  self->random_noise_ = randomization::NormalRand(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed());
  self->rmm_b_Am2_ = rmm_params.GetConstantValue_b_Am2();
}
//= s2e::disturbances::AirDrag::AirDrag
void AirDrag_Ctor(AirDrag* self, const std::vector<spacecraft::Surface>& surfaces, const math::Vector<3>& center_of_gravity_b_m, const double wall_temperature_K, const double molecular_temperature_K, const double molecular_weight_g_mol, const bool is_calculation_enabled) {
  ::ref::SfCtor(self, surfaces, center_of_gravity_b_m, is_calculation_enabled);
  self->wall_temperature_K_ = wall_temperature_K;
  self->molecular_temperature_K_ = molecular_temperature_K;
  self->molecular_weight_g_mol_ = molecular_weight_g_mol;
  self->ct_.assign(self->surfaces_.size(), 1.0);
  self->cn_.assign(self->surfaces_.size(), 0.0);
}
//= s2e::disturbances::Geopotential::Geopotential(constint,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constbool) leaves=s2e::gravity::GravityPotential::GravityPotential skip=debug_pos_ecef_m_
void Geopotential_Ctor(Geopotential* self, const int degree, const std::string file_path, const bool is_calculation_enabled) {
  Disturbance_Ctor(self, is_calculation_enabled, false);
  self->time_ms_ = 0.0;
  size_t n = degree;
  if (n > 360)
    n = 360;
  else if (n <= 1)
    n = 0;
  self->acceleration_ecef_m_s2_ = math::Vector<3>(0.0);
  self->c_.assign(n + 1, std::vector<double>(n + 1, 0.0));
  self->s_.assign(n + 1, std::vector<double>(n + 1, 0.0));
  self->c_[0][0] = 0.0;
  self->degree_ = n;
  if (n >= 2 && !self->ReadCoefficientsEgm96(file_path)) self->degree_ = 0;
  self->geopotential_ = gravity::GravityPotential(self->degree_, self->c_, self->s_);
}
//= s2e::disturbances::Geopotential::ReadCoefficientsEgm96
bool Geopotential_ReadCoefficientsEgm96(Geopotential* self, std::string file_name) {
  std::ifstream file(file_name);
  if (!file.is_open()) return false;
  const size_t number = (self->degree_ + 1) * (self->degree_ + 2) / 2 - 3;
  for (size_t i = 0; i < number; i++) {
    std::string line;
    std::getline(file, line);
    std::istringstream stream(line);
    int n, m;
    double c, s;
    stream >> n >> m >> c >> s;
    self->c_[n][m] = c;
    self->s_[n][m] = s;
  }
  return true;
}
//= s2e::disturbances::LunarGravityField::LunarGravityField(constint,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constbool) leaves=s2e::gravity::GravityPotential::GravityPotential skip=debug_pos_mcmf_m_
void LunarGravityField_Ctor(LunarGravityField* self, const int degree, const std::string file_path, const bool is_calculation_enabled) {
  Disturbance_Ctor(self, is_calculation_enabled, false);
  self->time_ms_ = 0.0;
  size_t n = degree;
  if (n > 1200)
    n = 1200;
  else if (n <= 1)
    n = 0;
  self->acceleration_mcmf_m_s2_ = math::Vector<3>(0.0);
  self->c_.assign(n + 1, std::vector<double>(n + 1, 0.0));
  self->s_.assign(n + 1, std::vector<double>(n + 1, 0.0));
  self->c_[0][0] = 0.0;
  self->degree_ = n;
  if (n >= 2 && !self->ReadCoefficientsGrgm1200a(file_path)) self->degree_ = 0;
  self->lunar_potential_ = gravity::GravityPotential(self->degree_, self->c_, self->s_, self->gravity_constants_km3_s2_ * 1e9, self->reference_radius_km_ * 1e3);
}
//= s2e::disturbances::LunarGravityField::ReadCoefficientsGrgm1200a
bool LunarGravityField_ReadCoefficientsGrgm1200a(LunarGravityField* self, std::string file_name) {
  std::ifstream file(file_name);
  if (!file.is_open()) return false;
  std::string line, cell;
  std::getline(file, cell, ',');
  self->reference_radius_km_ = std::stod(cell);
  std::getline(file, cell, ',');
  self->gravity_constants_km3_s2_ = std::stod(cell);
  std::getline(file, line);
  const size_t number = (self->degree_ + 1) * (self->degree_ + 2) / 2 - 1;
  for (size_t i = 0; i < number; i++) {
    std::getline(file, line, ',');
    const int n = std::stoi(line);
    std::getline(file, line, ',');
    const int m = std::stoi(line);
    std::getline(file, line, ',');
    const double c = std::stod(line);
    std::getline(file, line, ',');
    const double s = std::stod(line);
    std::getline(file, line);
    self->c_[n][m] = c;
    self->s_[n][m] = s;
  }
  return true;
}
//= s2e::disturbances::Geopotential::Geopotential(consts2e::disturbances::Geopotential&) skip=debug_pos_ecef_m_
void Geopotential_Copy(Geopotential* self, const Geopotential& obj) {
  self->is_calculation_enabled_ = obj.is_calculation_enabled_;
  self->is_attitude_dependent_ = obj.is_attitude_dependent_;
  self->is_log_enabled_ = obj.is_log_enabled_;
  self->force_b_N_ = obj.force_b_N_;
  self->torque_b_Nm_ = obj.torque_b_Nm_;
  self->acceleration_b_m_s2_ = obj.acceleration_b_m_s2_;
  self->acceleration_i_m_s2_ = obj.acceleration_i_m_s2_;
  self->time_ms_ = 0.0;
  self->geopotential_ = obj.geopotential_;
  self->degree_ = obj.degree_;
  self->c_ = obj.c_;
  self->s_ = obj.s_;
}
//= s2e::disturbances::LunarGravityField::LunarGravityField(consts2e::disturbances::LunarGravityField&) skip=debug_pos_mcmf_m_
void LunarGravityField_Copy(LunarGravityField* self, const LunarGravityField& obj) {
  self->is_calculation_enabled_ = obj.is_calculation_enabled_;
  self->is_attitude_dependent_ = obj.is_attitude_dependent_;
  self->is_log_enabled_ = obj.is_log_enabled_;
  self->force_b_N_ = obj.force_b_N_;
  self->torque_b_Nm_ = obj.torque_b_Nm_;
  self->acceleration_b_m_s2_ = obj.acceleration_b_m_s2_;
  self->acceleration_i_m_s2_ = obj.acceleration_i_m_s2_;
  self->time_ms_ = 0.0;
  self->lunar_potential_ = obj.lunar_potential_;
  self->reference_radius_km_ = obj.reference_radius_km_;
  self->gravity_constants_km3_s2_ = obj.gravity_constants_km3_s2_;
  self->degree_ = obj.degree_;
  self->c_ = obj.c_;
  self->s_ = obj.s_;
}
//= s2e::disturbances::InitGeopotential leaves=s2e::disturbances::Geopotential::Geopotential
Geopotential _InitGeopotential(const std::string file) {
  setting_file_reader::IniAccess conf(file);
  Geopotential d(conf.ReadInt("GEOPOTENTIAL", "degree"), conf.ReadString("GEOPOTENTIAL", "coefficients_file_path"), conf.ReadEnable("GEOPOTENTIAL", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("GEOPOTENTIAL", "logging");
  return d;
}
//= s2e::disturbances::InitLunarGravityField leaves=s2e::disturbances::LunarGravityField::LunarGravityField
LunarGravityField _InitLunarGravityField(const std::string file) {
  setting_file_reader::IniAccess conf(file);
  LunarGravityField d(conf.ReadInt("LUNAR_GRAVITY_FIELD", "degree"), conf.ReadString("LUNAR_GRAVITY_FIELD", "coefficients_file_path"), conf.ReadEnable("LUNAR_GRAVITY_FIELD", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("LUNAR_GRAVITY_FIELD", "logging");
  return d;
}
//= s2e::disturbances::InitMagneticDisturbance leaves=s2e::disturbances::MagneticDisturbance::MagneticDisturbance
MagneticDisturbance _InitMagneticDisturbance(const std::string file, const spacecraft::ResidualMagneticMoment& rmm_params) {
  setting_file_reader::IniAccess conf(file);
  MagneticDisturbance d(rmm_params, conf.ReadEnable("MAGNETIC_DISTURBANCE", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("MAGNETIC_DISTURBANCE", "logging");
  return d;
}
//= s2e::disturbances::InitGravityGradient(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>) leaves=s2e::disturbances::GravityGradient::GravityGradient
GravityGradient _InitGravityGradient(const std::string file) {
  setting_file_reader::IniAccess conf(file);
  GravityGradient d(conf.ReadEnable("GRAVITY_GRADIENT", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("GRAVITY_GRADIENT", "logging");
  return d;
}
//= s2e::disturbances::InitGravityGradient(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constdouble) leaves=s2e::disturbances::GravityGradient::GravityGradient
GravityGradient _InitGravityGradient2(const std::string file, const double gravity_constant_m3_s2) {
  setting_file_reader::IniAccess conf(file);
  GravityGradient d(gravity_constant_m3_s2, conf.ReadEnable("GRAVITY_GRADIENT", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("GRAVITY_GRADIENT", "logging");
  return d;
}
//= s2e::disturbances::InitSolarRadiationPressureDisturbance leaves=s2e::disturbances::SolarRadiationPressureDisturbance::SolarRadiationPressureDisturbance
SolarRadiationPressureDisturbance _InitSolarRadiationPressureDisturbance(const std::string file, const std::vector<spacecraft::Surface>& surfaces, const math::Vector<3>& center_of_gravity_b_m) {
  setting_file_reader::IniAccess conf(file);
  SolarRadiationPressureDisturbance d(surfaces, center_of_gravity_b_m, conf.ReadEnable("SOLAR_RADIATION_PRESSURE_DISTURBANCE", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("SOLAR_RADIATION_PRESSURE_DISTURBANCE", "logging");
  return d;
}
//= s2e::disturbances::InitAirDrag leaves=s2e::disturbances::AirDrag::AirDrag
AirDrag _InitAirDrag(const std::string file, const std::vector<spacecraft::Surface>& surfaces, const math::Vector<3>& center_of_gravity_b_m) {
  setting_file_reader::IniAccess conf(file);
  AirDrag d(surfaces, center_of_gravity_b_m, conf.ReadDouble("AIR_DRAG", "wall_temperature_degC") + 273.0, conf.ReadDouble("AIR_DRAG", "molecular_temperature_degC") + 273.0, conf.ReadDouble("AIR_DRAG", "molecular_weight_g_mol"), conf.ReadEnable("AIR_DRAG", "calculation"));
  d.is_log_enabled_ = conf.ReadEnable("AIR_DRAG", "logging");
  return d;
}
//= s2e::disturbances::InitThirdBodyGravity leaves=s2e::disturbances::ThirdBodyGravity::ThirdBodyGravity
ThirdBodyGravity _InitThirdBodyGravity(const std::string file, const std::string ini_path_celes) {
  setting_file_reader::IniAccess celestial(ini_path_celes);
  const int number_of_bodies = celestial.ReadInt("CELESTIAL_INFORMATION", "number_of_selected_body");
  const std::string center_object = celestial.ReadString("CELESTIAL_INFORMATION", "center_object");
  std::set<std::string> known;
  for (int i = 0; i < number_of_bodies; i++) known.insert(celestial.ReadString("CELESTIAL_INFORMATION", ("selected_body_name(" + std::to_string(i) + ")").c_str()));

  setting_file_reader::IniAccess conf(file);
  std::set<std::string> list;
  const int number = conf.ReadInt("THIRD_BODY_GRAVITY", "number_of_third_body");
  const bool enabled = conf.ReadEnable("THIRD_BODY_GRAVITY", "calculation");
  if (enabled) {
    for (int i = 0; i < number; i++) {
      const std::string name = conf.ReadString("THIRD_BODY_GRAVITY", ("third_body_name(" + std::to_string(i) + ")").c_str());
      assert(name != center_object);
      assert(known.find(name) != known.end());
      list.insert(name);
    }
  }
  ThirdBodyGravity d(list, enabled);
  d.is_log_enabled_ = conf.ReadEnable("THIRD_BODY_GRAVITY", "logging");
  return d;
}
}  // namespace s2e::disturbances::ref
