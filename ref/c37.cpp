// Reference specification for C37 (parsed, never compiled to code or run).
#include "base.hpp"
#include <cassert>
#include <cfloat>
#include <cmath>
#include "environment/global/physical_constants.hpp"
#include "math_physics/geodesy/geodetic_position.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/matrix.hpp"
#include "math_physics/math/matrix_vector.hpp"
#include "math_physics/math/s2e_math.hpp"
#include "math_physics/optics/gaussian_beam_base.hpp"
#include "math_physics/orbit/interpolation_orbit.hpp"
#include "math_physics/orbit/kepler_orbit.hpp"
#include "math_physics/orbit/orbital_elements.hpp"
#include "math_physics/orbit/relative_orbit_models.hpp"
// ---------------------------------------------------------------- math_physics/orbit/interpolation_orbit.cpp
namespace s2e::orbit::ref {
//= s2e::orbit::InterpolationOrbit::InterpolationOrbit
void InterpolationOrbit_Ctor(InterpolationOrbit* self, const size_t degree) {
  std::vector<double> time;
  time.assign(degree, -1.0);
  std::vector<double> position;
  position.assign(degree, 0.0);
  math::Interpolation temp(time, position);
  for (size_t axis = 0; axis < 3; axis++) {
    self->interpolation_position_.push_back(temp);
  }
}
//= s2e::orbit::InterpolationOrbit::PushAndPopData
bool InterpolationOrbit_PushAndPopData(InterpolationOrbit* self, const double time, const math::Vector<3> position) {
  bool result;
  for (size_t axis = 0; axis < 3; axis++) {
    result = self->interpolation_position_[axis].PushAndPopData(time, position[axis]);
    if (result == false) {
      return false;
    }
  }
  return true;
}
//= s2e::orbit::InterpolationOrbit::CalcPositionWithTrigonometric
math::Vector<3> InterpolationOrbit_CalcPositionWithTrigonometric(InterpolationOrbit* self, const double time, const double period) {
  math::Vector<3> output_position;
  for (size_t axis = 0; axis < 3; axis++) {
    output_position[axis] = self->interpolation_position_[axis].CalcTrigonometric(time, period);
  }
  return output_position;
}
//= s2e::orbit::InterpolationOrbit::CalcPositionWithPolynomial
math::Vector<3> InterpolationOrbit_CalcPositionWithPolynomial(InterpolationOrbit* self, const double time) {
  math::Vector<3> output_position;
  for (size_t axis = 0; axis < 3; axis++) {
    output_position[axis] = self->interpolation_position_[axis].CalcPolynomial(time);
  }
  return output_position;
}
}

// ---------------------------------------------------------------- math_physics/orbit/kepler_orbit.cpp
namespace s2e::orbit::ref {
//= s2e::orbit::KeplerOrbit::KeplerOrbit()
void KeplerOrbit_Ctor(KeplerOrbit* self) {}
//= s2e::orbit::KeplerOrbit::KeplerOrbit(constdouble,consts2e::orbit::OrbitalElements)
void KeplerOrbit_Ctor2(KeplerOrbit* self, const double gravity_constant_m3_s2, const OrbitalElements oe) {
  self->gravity_constant_m3_s2_ = gravity_constant_m3_s2;
  self->oe_ = oe;

  self->CalcConstKeplerMotion();
}
//= s2e::orbit::KeplerOrbit::CalcConstKeplerMotion
void KeplerOrbit_CalcConstKeplerMotion(KeplerOrbit* self) {
  // mean motion
  double a_m3 = pow(self->oe_.GetSemiMajorAxis_m(), 3.0);
  self->mean_motion_rad_s_ = sqrt(self->gravity_constant_m3_s2_ / a_m3);

  // DCM
  math::Matrix<3, 3> dcm_arg_perigee = math::MakeRotationMatrixZ(-1.0 * self->oe_.GetArgPerigee_rad());
  math::Matrix<3, 3> dcm_inclination = math::MakeRotationMatrixX(-1.0 * self->oe_.GetInclination_rad());
  math::Matrix<3, 3> dcm_raan = math::MakeRotationMatrixZ(-1.0 * self->oe_.GetRaan_rad());
  math::Matrix<3, 3> dcm_inc_arg = dcm_inclination * dcm_arg_perigee;
  self->dcm_inplane_to_i_ = dcm_raan * dcm_inc_arg;
}
//= s2e::orbit::KeplerOrbit::CalcOrbit
void KeplerOrbit_CalcOrbit(KeplerOrbit* self, double time_jday) {
  // replace to short name variables
  double a_m = self->oe_.GetSemiMajorAxis_m();
  double e = self->oe_.GetEccentricity();
  double n_rad_s = self->mean_motion_rad_s_;
  double dt_s = (time_jday - self->oe_.GetEpoch_jday()) * (24.0 * 60.0 * 60.0);

  double mean_anomaly_rad = self->mean_motion_rad_s_ * dt_s;
  double l_rad = math::WrapTo2Pi(mean_anomaly_rad);

  // Solve Kepler Equation
  double eccentric_anomaly_rad;
  eccentric_anomaly_rad = self->SolveKeplerNewtonMethod(e, l_rad, 1.0e-5, 10);
  double u_rad = math::WrapTo2Pi(eccentric_anomaly_rad);

  // Calc position and velocity in the plane
  double cos_u = cos(u_rad);
  double sin_u = sin(u_rad);
  double a_sqrt_e_m = a_m * sqrt(1.0 - e * e);
  double e_cos_u = 1.0 - e * cos_u;

  math::Vector<3> pos_inplane_m;
  pos_inplane_m[0] = a_m * (cos_u - e);
  pos_inplane_m[1] = a_sqrt_e_m * sin_u;
  pos_inplane_m[2] = 0.0;

  math::Vector<3> vel_inplane_m_s;
  vel_inplane_m_s[0] = -1.0 * a_m * n_rad_s * sin_u / e_cos_u;
  vel_inplane_m_s[1] = n_rad_s * a_sqrt_e_m * cos_u / e_cos_u;
  vel_inplane_m_s[2] = 0.0;

  // Transform to ECI
  self->position_i_m_ = self->dcm_inplane_to_i_ * pos_inplane_m;
  self->velocity_i_m_s_ = self->dcm_inplane_to_i_ * vel_inplane_m_s;
}
//= s2e::orbit::KeplerOrbit::SolveKeplerFirstOrder
double KeplerOrbit_SolveKeplerFirstOrder(KeplerOrbit* self, const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad, const int iteration_limit) {
  double u_prev_rad = mean_anomaly_rad;
  double u_rad = 0.0;

  for (int i = 0; i < iteration_limit; i++) {
    u_rad = mean_anomaly_rad + eccentricity * sin(u_prev_rad);

    double diff_abs_rad = std::abs(u_rad - u_prev_rad);
    if (diff_abs_rad < angle_limit_rad) break;

    u_prev_rad = u_rad;
  }

  return u_rad;
}
//= s2e::orbit::KeplerOrbit::SolveKeplerNewtonMethod
double KeplerOrbit_SolveKeplerNewtonMethod(KeplerOrbit* self, const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad, const int iteration_limit) {
  double u_prev_rad = mean_anomaly_rad;
  double u_rad = 0.0;

  for (int i = 0; i < iteration_limit; i++) {
    u_rad = u_prev_rad - (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));

    double diff_abs_rad = std::abs(u_rad - u_prev_rad);
    if (diff_abs_rad < angle_limit_rad) break;

    u_prev_rad = u_rad;
  }
  return u_rad;
}
}

// ---------------------------------------------------------------- math_physics/orbit/orbital_elements.cpp
namespace s2e::orbit::ref {
//= s2e::orbit::OrbitalElements::OrbitalElements()
void OrbitalElements_Ctor(OrbitalElements* self) {}
//= s2e::orbit::OrbitalElements::OrbitalElements(constdouble,constdouble,constdouble,constdouble,constdouble,constdouble)
void OrbitalElements_Ctor2(OrbitalElements* self, const double epoch_jday, const double semi_major_axis_m, const double eccentricity, const double inclination_rad, const double raan_rad, const double arg_perigee_rad) {
  self->semi_major_axis_m_ = semi_major_axis_m;
  self->eccentricity_ = eccentricity;
  self->inclination_rad_ = inclination_rad;
  self->raan_rad_ = raan_rad;
  self->arg_perigee_rad_ = arg_perigee_rad;
  self->epoch_jday_ = epoch_jday;
}
//= s2e::orbit::OrbitalElements::OrbitalElements(constdouble,constdouble,consts2e::math::Vector<3,double>,consts2e::math::Vector<3,double>)
void OrbitalElements_Ctor3(OrbitalElements* self, const double gravity_constant_m3_s2, const double time_jday, const math::Vector<3> position_i_m, const math::Vector<3> velocity_i_m_s) {
  self->CalcOeFromPosVel(gravity_constant_m3_s2, time_jday, position_i_m, velocity_i_m_s);
}
//= s2e::orbit::OrbitalElements::CalcOeFromPosVel
void OrbitalElements_CalcOeFromPosVel(OrbitalElements* self, const double gravity_constant_m3_s2, const double time_jday, const math::Vector<3> position_i_m, const math::Vector<3> velocity_i_m_s) {
  // common variables
  double r_m = position_i_m.CalcNorm();
  double v2_m2_s2 = InnerProduct(velocity_i_m_s, velocity_i_m_s);
  math::Vector<3> h;  //!< angular momentum vector
  h = OuterProduct(position_i_m, velocity_i_m_s);
  double h_norm = h.CalcNorm();

  // semi major axis
  self->semi_major_axis_m_ = gravity_constant_m3_s2 / (2.0 * gravity_constant_m3_s2 / r_m - v2_m2_s2);

  // inclination
  math::Vector<3> h_direction = h.CalcNormalizedVector();
  self->inclination_rad_ = acos(h_direction[2]);

  // RAAN
  double norm_h = sqrt(h[0] * h[0] + h[1] * h[1]);
  if (norm_h < 0.0 + DBL_EPSILON) {
    // We cannot define raan when i = 0
    self->raan_rad_ = 0.0;
  } else {
    self->raan_rad_ = atan2(h[0], -h[1]);
  }
  // position in plane
  double x_p_m = position_i_m[0] * cos(self->raan_rad_) + position_i_m[1] * sin(self->raan_rad_);
  double tmp_m = -position_i_m[0] * sin(self->raan_rad_) + position_i_m[1] * cos(self->raan_rad_);
  double y_p_m = tmp_m * cos(self->inclination_rad_) + position_i_m[2] * sin(self->inclination_rad_);

  // velocity in plane
  double dx_p_m_s = velocity_i_m_s[0] * cos(self->raan_rad_) + velocity_i_m_s[1] * sin(self->raan_rad_);
  double dtmp_m_s = -velocity_i_m_s[0] * sin(self->raan_rad_) + velocity_i_m_s[1] * cos(self->raan_rad_);
  double dy_p_m_s = dtmp_m_s * cos(self->inclination_rad_) + velocity_i_m_s[2] * sin(self->inclination_rad_);

  // eccentricity
  double t1 = (h_norm / gravity_constant_m3_s2) * dy_p_m_s - x_p_m / r_m;
  double t2 = -(h_norm / gravity_constant_m3_s2) * dx_p_m_s - y_p_m / r_m;
  self->eccentricity_ = sqrt(t1 * t1 + t2 * t2);

  // arg perigee
  self->arg_perigee_rad_ = atan2(t2, t1);

  // true anomaly f_rad and eccentric anomaly u_rad
  double phi_rad = atan2(y_p_m, x_p_m);
  double f_rad = phi_rad - self->arg_perigee_rad_;
  f_rad = math::WrapTo2Pi(f_rad);

  double u_rad = atan2(r_m * sin(f_rad) / sqrt(1.0 - self->eccentricity_ * self->eccentricity_), r_m * cos(f_rad) + self->semi_major_axis_m_ * self->eccentricity_);
  u_rad = math::WrapTo2Pi(u_rad);

  // epoch t0
  double n_rad_s = sqrt(gravity_constant_m3_s2 / pow(self->semi_major_axis_m_, 3.0));
  double dt_s = (u_rad - self->eccentricity_ * sin(u_rad)) / n_rad_s;
  self->epoch_jday_ = time_jday - dt_s / (24.0 * 60.0 * 60.0);
}
}

// ---------------------------------------------------------------- math_physics/orbit/relative_orbit_models.cpp
namespace s2e::orbit::ref {
//= s2e::orbit::CalcHillSystemMatrix
math::Matrix<6, 6> _CalcHillSystemMatrix(double orbit_radius_m, double gravity_constant_m3_s2) {
  math::Matrix<6, 6> system_matrix;

  double n = sqrt(gravity_constant_m3_s2 / pow(orbit_radius_m, 3));
  system_matrix[0][0] = 0.0;
  system_matrix[0][1] = 0.0;
  system_matrix[0][2] = 0.0;
  system_matrix[0][3] = 1.0;
  system_matrix[0][4] = 0.0;
  system_matrix[0][5] = 0.0;
  system_matrix[1][0] = 0.0;
  system_matrix[1][1] = 0.0;
  system_matrix[1][2] = 0.0;
  system_matrix[1][3] = 0.0;
  system_matrix[1][4] = 1.0;
  system_matrix[1][5] = 0.0;
  system_matrix[2][0] = 0.0;
  system_matrix[2][1] = 0.0;
  system_matrix[2][2] = 0.0;
  system_matrix[2][3] = 0.0;
  system_matrix[2][4] = 0.0;
  system_matrix[2][5] = 1.0;
  system_matrix[3][0] = 3.0 * n * n;
  system_matrix[3][1] = 0.0;
  system_matrix[3][2] = 0.0;
  system_matrix[3][3] = 0.0;
  system_matrix[3][4] = 2.0 * n;
  system_matrix[3][5] = 0.0;
  system_matrix[4][0] = 0.0;
  system_matrix[4][1] = 0.0;
  system_matrix[4][2] = 0.0;
  system_matrix[4][3] = -2.0 * n;
  system_matrix[4][4] = 0.0;
  system_matrix[4][5] = 0.0;
  system_matrix[5][0] = 0.0;
  system_matrix[5][1] = 0.0;
  system_matrix[5][2] = -n * n;
  system_matrix[5][3] = 0.0;
  system_matrix[5][4] = 0.0;
  system_matrix[5][5] = 0.0;

  return system_matrix;
}
//= s2e::orbit::CalcHcwStm
math::Matrix<6, 6> _CalcHcwStm(double orbit_radius_m, double gravity_constant_m3_s2, double elapsed_time_s) {
  math::Matrix<6, 6> stm;

  double n = sqrt(gravity_constant_m3_s2 / pow(orbit_radius_m, 3));
  double t = elapsed_time_s;
  stm[0][0] = 4.0 - 3.0 * cos(n * t);
  stm[0][1] = 0.0;
  stm[0][2] = 0.0;
  stm[0][3] = sin(n * t) / n;
  stm[0][4] = 2.0 / n - 2.0 * cos(n * t) / n;
  stm[0][5] = 0.0;
  stm[1][0] = -6.0 * n * t + 6 * sin(n * t);
  stm[1][1] = 1.0;
  stm[1][2] = 0.0;
  stm[1][3] = -2.0 / n + 2.0 * cos(n * t) / n;
  stm[1][4] = 4.0 * sin(n * t) / n - 3.0 * t;
  stm[1][5] = 0.0;
  stm[2][0] = 0.0;
  stm[2][1] = 0.0;
  stm[2][2] = cos(n * t);
  stm[2][3] = 0.0;
  stm[2][4] = 0.0;
  stm[2][5] = sin(n * t) / n;
  stm[3][0] = 3.0 * n * sin(n * t);
  stm[3][1] = 0.0;
  stm[3][2] = 0.0;
  stm[3][3] = cos(n * t);
  stm[3][4] = 2 * sin(n * t);
  stm[3][5] = 0.0;
  stm[4][0] = -6.0 * n + 6.0 * n * cos(n * t);
  stm[4][1] = 0.0;
  stm[4][2] = 0.0;
  stm[4][3] = -2.0 * sin(n * t);
  stm[4][4] = -3.0 + 4.0 * cos(n * t);
  stm[4][5] = 0.0;
  stm[5][0] = 0.0;
  stm[5][1] = 0.0;
  stm[5][2] = -n * sin(n * t);
  stm[5][3] = 0.0;
  stm[5][4] = 0.0;
  stm[5][5] = cos(n * t);
  return stm;
}
}

// ---------------------------------------------------------------- math_physics/orbit/test_interpolation_orbit.cpp
namespace s2e::ref {
}

// ---------------------------------------------------------------- math_physics/orbit/interpolation_orbit.hpp
namespace s2e::orbit::ref {
//= s2e::orbit::InterpolationOrbit::GetDegree
size_t InterpolationOrbit_GetDegree(InterpolationOrbit* self) { return self->interpolation_position_[0].GetDegree(); }
//= s2e::orbit::InterpolationOrbit::GetTimeList
std::vector<double> InterpolationOrbit_GetTimeList(InterpolationOrbit* self) { return self->interpolation_position_[0].GetIndependentVariables(); }
//= s2e::orbit::InterpolationOrbit::GetPositionDataList
std::vector<double> InterpolationOrbit_GetPositionDataList(InterpolationOrbit* self, const size_t axis) {
    if (axis > 3) {
      return self->interpolation_position_[2].GetDependentVariables();
    }
    return self->interpolation_position_[axis].GetDependentVariables();
  }
}

// ---------------------------------------------------------------- math_physics/orbit/kepler_orbit.hpp
namespace s2e::orbit::ref {
//= s2e::orbit::KeplerOrbit::GetPosition_i_m
math::Vector<3> KeplerOrbit_GetPosition_i_m(KeplerOrbit* self) { return self->position_i_m_; }
//= s2e::orbit::KeplerOrbit::GetVelocity_i_m_s
math::Vector<3> KeplerOrbit_GetVelocity_i_m_s(KeplerOrbit* self) { return self->velocity_i_m_s_; }
}

// ---------------------------------------------------------------- math_physics/orbit/orbital_elements.hpp
namespace s2e::orbit::ref {
//= s2e::orbit::OrbitalElements::GetSemiMajorAxis_m
double OrbitalElements_GetSemiMajorAxis_m(OrbitalElements* self) { return self->semi_major_axis_m_; }
//= s2e::orbit::OrbitalElements::GetEccentricity
double OrbitalElements_GetEccentricity(OrbitalElements* self) { return self->eccentricity_; }
//= s2e::orbit::OrbitalElements::GetInclination_rad
double OrbitalElements_GetInclination_rad(OrbitalElements* self) { return self->inclination_rad_; }
//= s2e::orbit::OrbitalElements::GetRaan_rad
double OrbitalElements_GetRaan_rad(OrbitalElements* self) { return self->raan_rad_; }
//= s2e::orbit::OrbitalElements::GetArgPerigee_rad
double OrbitalElements_GetArgPerigee_rad(OrbitalElements* self) { return self->arg_perigee_rad_; }
//= s2e::orbit::OrbitalElements::GetEpoch_jday
double OrbitalElements_GetEpoch_jday(OrbitalElements* self) { return self->epoch_jday_; }
}

// ---------------------------------------------------------------- math_physics/geodesy/geodetic_position.cpp
namespace s2e::geodesy::ref {
//= s2e::geodesy::GeodeticPosition::GeodeticPosition()
void GeodeticPosition_Ctor(GeodeticPosition* self) {
  self->latitude_rad_ = 0.0;
  self->longitude_rad_ = 0.0;
  self->altitude_m_ = 0.0;
  self->CalcQuaternionXcxfToLtc();
}
//= s2e::geodesy::GeodeticPosition::GeodeticPosition(constdouble,constdouble,constdouble)
void GeodeticPosition_Ctor2(GeodeticPosition* self, const double latitude_rad, const double longitude_rad, const double altitude_m) {
  self->latitude_rad_ = latitude_rad;
  self->longitude_rad_ = longitude_rad;
  self->altitude_m_ = altitude_m;

  // TODO: Add assertion check for altitude limit
  self->CalcQuaternionXcxfToLtc();
}
//= s2e::geodesy::GeodeticPosition::UpdateFromEcef
void GeodeticPosition_UpdateFromEcef(GeodeticPosition* self, const math::Vector<3> position_ecef_m) {
  const double earth_radius_m = environment::earth_equatorial_radius_m;
  const double flattening = environment::earth_flattening;

  double r_m, e2, phi, c;
  double theta_rad;

  theta_rad = AcTan(position_ecef_m[1], position_ecef_m[0]);
  self->longitude_rad_ = FMod2p(theta_rad);
  r_m = sqrt(position_ecef_m[0] * position_ecef_m[0] + position_ecef_m[1] * position_ecef_m[1]);
  e2 = flattening * (2.0 - flattening);
  double lat_tmp_rad = AcTan(position_ecef_m[2], r_m);

  do {
    phi = lat_tmp_rad;
    c = 1.0 / sqrt(1.0 - e2 * sin(phi) * sin(phi));
    lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
  } while (fabs(lat_tmp_rad - phi) >= 1E-10);

  self->altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;

  if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;

  self->latitude_rad_ = lat_tmp_rad;

  self->CalcQuaternionXcxfToLtc();
  return;
}
//= s2e::geodesy::GeodeticPosition::CalcEcefPosition
math::Vector<3> GeodeticPosition_CalcEcefPosition(GeodeticPosition* self) {
  const double earth_radius_m = environment::earth_equatorial_radius_m;
  const double flattening = environment::earth_flattening;

  double theta = FMod2p(self->longitude_rad_);
  double e2 = flattening * (2.0 - flattening);
  double c = 1.0 / sqrt(1.0 - e2 * sin(self->latitude_rad_) * sin(self->latitude_rad_));
  double n = c * earth_radius_m;

  math::Vector<3> pos_ecef_m;
  pos_ecef_m(0) = (n + self->altitude_m_) * cos(self->latitude_rad_) * cos(theta);
  pos_ecef_m(1) = (n + self->altitude_m_) * cos(self->latitude_rad_) * sin(theta);
  pos_ecef_m(2) = (n * (1.0 - e2) + self->altitude_m_) * sin(self->latitude_rad_);

  return pos_ecef_m;
}
//= s2e::geodesy::GeodeticPosition::CalcQuaternionXcxfToLtc
void GeodeticPosition_CalcQuaternionXcxfToLtc(GeodeticPosition* self) {
  math::Matrix<3, 3> dcm_xcxf_to_ltc;
  dcm_xcxf_to_ltc[0][0] = -sin(self->longitude_rad_);
  dcm_xcxf_to_ltc[0][1] = cos(self->longitude_rad_);
  dcm_xcxf_to_ltc[0][2] = 0;
  dcm_xcxf_to_ltc[1][0] = -sin(self->latitude_rad_) * cos(self->longitude_rad_);
  dcm_xcxf_to_ltc[1][1] = -sin(self->latitude_rad_) * sin(self->longitude_rad_);
  dcm_xcxf_to_ltc[1][2] = cos(self->latitude_rad_);
  dcm_xcxf_to_ltc[2][0] = cos(self->latitude_rad_) * cos(self->longitude_rad_);
  dcm_xcxf_to_ltc[2][1] = cos(self->latitude_rad_) * sin(self->longitude_rad_);
  dcm_xcxf_to_ltc[2][2] = sin(self->latitude_rad_);

  self->quaternion_xcxf_to_ltc_ = self->quaternion_xcxf_to_ltc_.ConvertFromDcm(dcm_xcxf_to_ltc);
}
}

// ---------------------------------------------------------------- math_physics/geodesy/geodetic_position.hpp
namespace s2e::geodesy::ref {
//= s2e::geodesy::GeodeticPosition::GetLatitude_rad
double GeodeticPosition_GetLatitude_rad(GeodeticPosition* self) { return self->latitude_rad_; }
//= s2e::geodesy::GeodeticPosition::GetLongitude_rad
double GeodeticPosition_GetLongitude_rad(GeodeticPosition* self) { return self->longitude_rad_; }
//= s2e::geodesy::GeodeticPosition::GetAltitude_m
double GeodeticPosition_GetAltitude_m(GeodeticPosition* self) { return self->altitude_m_; }
//= s2e::geodesy::GeodeticPosition::GetQuaternionXcxfToLtc
math::Quaternion GeodeticPosition_GetQuaternionXcxfToLtc(GeodeticPosition* self) { return self->quaternion_xcxf_to_ltc_; }
}

// ---------------------------------------------------------------- math_physics/optics/gaussian_beam_base.cpp
namespace s2e::optics::ref {
//= s2e::optics::GaussianBeamBase::GaussianBeamBase
void GaussianBeamBase_Ctor(GaussianBeamBase* self, double wavelength_m, double radius_beam_waist_m, double total_power_W) {
  self->wavelength_m_ = wavelength_m;
  self->radius_beam_waist_m_ = radius_beam_waist_m;
  self->total_power_W_ = total_power_W;
  self->pointing_vector_i_ = math::Vector<3>{0.0};
  self->position_beam_waist_i_m_ = math::Vector<3>{0.0};
}
//= s2e::optics::GaussianBeamBase::SetWaveLength_m
void GaussianBeamBase_SetWaveLength_m(GaussianBeamBase* self, const double wavelength_m) {
  assert(wavelength_m > 0.0);
  self->wavelength_m_ = wavelength_m;
}
//= s2e::optics::GaussianBeamBase::SetBeamWaistRadius_m
void GaussianBeamBase_SetBeamWaistRadius_m(GaussianBeamBase* self, const double radius_beam_waist_m) {
  assert(radius_beam_waist_m > 0.0);
  self->radius_beam_waist_m_ = radius_beam_waist_m;
}
//= s2e::optics::GaussianBeamBase::SetTotalPower_W
void GaussianBeamBase_SetTotalPower_W(GaussianBeamBase* self, const double total_power_W) {
  assert(total_power_W >= 0.0);
  self->total_power_W_ = total_power_W;
}
//= s2e::optics::GaussianBeamBase::SetPointingVector_i
void GaussianBeamBase_SetPointingVector_i(GaussianBeamBase* self, const math::Vector<3> pointing_vector_i) { self->pointing_vector_i_ = pointing_vector_i; }
//= s2e::optics::GaussianBeamBase::SetBeamWaistPosition_i_m
void GaussianBeamBase_SetBeamWaistPosition_i_m(GaussianBeamBase* self, const math::Vector<3> position_beam_waist_i_m) { self->position_beam_waist_i_m_ = position_beam_waist_i_m; }
//= s2e::optics::GaussianBeamBase::CalcBeamWidthRadius_m
double GaussianBeamBase_CalcBeamWidthRadius_m(GaussianBeamBase* self, double distance_from_beam_waist_m) {
  double rayleigh_length_m = math::pi * self->radius_beam_waist_m_ * self->radius_beam_waist_m_ / self->wavelength_m_;
  double beam_width_radius_m = self->radius_beam_waist_m_ * sqrt(1.0 + std::pow((distance_from_beam_waist_m / rayleigh_length_m), 2.0));
  return beam_width_radius_m;
}
//= s2e::optics::GaussianBeamBase::CalcIntensity_W_m2
double GaussianBeamBase_CalcIntensity_W_m2(GaussianBeamBase* self, double distance_from_beam_waist_m, double deviation_from_optical_axis_m) {
  double beam_width_radius_m = self->CalcBeamWidthRadius_m(distance_from_beam_waist_m);
  double peak_intensity_W_m2 = (2.0 * self->total_power_W_) / (math::pi * beam_width_radius_m * beam_width_radius_m);
  double gaussian_dist =
      std::exp((-2.0 * deviation_from_optical_axis_m * deviation_from_optical_axis_m) / (beam_width_radius_m * beam_width_radius_m));
  double intensity_W_m2 = peak_intensity_W_m2 * gaussian_dist;
  return intensity_W_m2;
}
}

// ---------------------------------------------------------------- math_physics/optics/gaussian_beam_base.hpp
namespace s2e::optics::ref {
//= s2e::optics::GaussianBeamBase::GetWaveLength_m
double GaussianBeamBase_GetWaveLength_m(GaussianBeamBase* self) { return self->wavelength_m_; }
//= s2e::optics::GaussianBeamBase::GetBeamWaistRadius_m
double GaussianBeamBase_GetBeamWaistRadius_m(GaussianBeamBase* self) { return self->radius_beam_waist_m_; }
//= s2e::optics::GaussianBeamBase::GetTotalPower_W
double GaussianBeamBase_GetTotalPower_W(GaussianBeamBase* self) { return self->total_power_W_; }
//= s2e::optics::GaussianBeamBase::GetPointingVector_i
math::Vector<3> GaussianBeamBase_GetPointingVector_i(GaussianBeamBase* self) { return self->pointing_vector_i_; }
//= s2e::optics::GaussianBeamBase::GetBeamWaistPosition_i_m
math::Vector<3> GaussianBeamBase_GetBeamWaistPosition_i_m(GaussianBeamBase* self) { return self->position_beam_waist_i_m_; }
}
