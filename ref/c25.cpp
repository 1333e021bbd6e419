// Reference specification for C25 (parsed, never compiled to code or run).
//! leaves=s2e::dynamics::orbit::InitOrbit,s2e::dynamics::attitude::InitAttitude,s2e::dynamics::thermal::InitTemperature,s2e::dynamics::thermal::Temperature::Propagate
#include "base.hpp"
#include <cassert>
#include <fstream>
#include <iostream>
#include <sstream>
#include "dynamics/attitude/attitude.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
#include "dynamics/attitude/attitude_with_cantilever_vibration.hpp"
#include "dynamics/attitude/controlled_attitude.hpp"
#include "dynamics/attitude/initialize_attitude.hpp"
#include "dynamics/attitude/ode_attitude_with_cantilever_vibration.hpp"
#include "dynamics/dynamics.hpp"
#include "dynamics/orbit/encke_orbit_propagation.hpp"
#include "dynamics/orbit/initialize_orbit.hpp"
#include "dynamics/orbit/kepler_orbit_propagation.hpp"
#include "dynamics/orbit/orbit.hpp"
#include "dynamics/orbit/relative_orbit.hpp"
#include "dynamics/orbit/rk4_orbit_propagation.hpp"
#include "dynamics/orbit/sgp4_orbit_propagation.hpp"
#include "dynamics/orbit/time_series_file_orbit_propagation.hpp"
#include "logger/log_utility.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/s2e_math.hpp"
#include "math_physics/orbit/orbital_elements.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
// ---------------------------------------------------------------- dynamics/attitude/attitude.cpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::Attitude::Attitude
void Base_Attitude_Ctor(Attitude* self, const math::Matrix<3, 3>& inertia_tensor_kgm2, const std::string& simulation_object_name) {
  Attitude_Ctor(self, inertia_tensor_kgm2, simulation_object_name);
}
//= s2e::dynamics::attitude::Attitude::SetParameters
void Attitude_SetParameters(Attitude* self, const simulation::MonteCarloSimulationExecutor& mc_simulator) {
  self->GetInitializedMonteCarloParameterQuaternion(mc_simulator, "quaternion_i2b", self->quaternion_i2b_);
}
//= s2e::dynamics::attitude::Attitude::CalcAngularMomentum
void Attitude_CalcAngularMomentum(Attitude* self) {
  self->angular_momentum_spacecraft_b_Nms_ = self->inertia_tensor_kgm2_ * self->angular_velocity_b_rad_s_;
  self->angular_momentum_total_b_Nms_ = self->angular_momentum_reaction_wheel_b_Nms_ + self->angular_momentum_spacecraft_b_Nms_;
  math::Quaternion q_b2i = self->quaternion_i2b_.Conjugate();
  self->angular_momentum_total_i_Nms_ = q_b2i.FrameConversion(self->angular_momentum_total_b_Nms_);
  self->angular_momentum_total_Nms_ = self->angular_momentum_total_i_Nms_.CalcNorm();

  self->kinetic_energy_J_ = 0.5 * math::InnerProduct(self->angular_momentum_spacecraft_b_Nms_, self->angular_velocity_b_rad_s_);
}
//= s2e::dynamics::attitude::CalcAngularVelocityMatrix
math::Matrix<4, 4> _CalcAngularVelocityMatrix(math::Vector<3> angular_velocity_b_rad_s) {
  math::Matrix<4, 4> angular_velocity_matrix;

  angular_velocity_matrix[0][0] = 0.0f;
  angular_velocity_matrix[0][1] = angular_velocity_b_rad_s[2];
  angular_velocity_matrix[0][2] = -angular_velocity_b_rad_s[1];
  angular_velocity_matrix[0][3] = angular_velocity_b_rad_s[0];
  angular_velocity_matrix[1][0] = -angular_velocity_b_rad_s[2];
  angular_velocity_matrix[1][1] = 0.0f;
  angular_velocity_matrix[1][2] = angular_velocity_b_rad_s[0];
  angular_velocity_matrix[1][3] = angular_velocity_b_rad_s[1];
  angular_velocity_matrix[2][0] = angular_velocity_b_rad_s[1];
  angular_velocity_matrix[2][1] = -angular_velocity_b_rad_s[0];
  angular_velocity_matrix[2][2] = 0.0f;
  angular_velocity_matrix[2][3] = angular_velocity_b_rad_s[2];
  angular_velocity_matrix[3][0] = -angular_velocity_b_rad_s[0];
  angular_velocity_matrix[3][1] = -angular_velocity_b_rad_s[1];
  angular_velocity_matrix[3][2] = -angular_velocity_b_rad_s[2];
  angular_velocity_matrix[3][3] = 0.0f;

  return angular_velocity_matrix;
}
}

// ---------------------------------------------------------------- dynamics/attitude/attitude.hpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::Attitude::GetPropStep_s
double Attitude_GetPropStep_s(Attitude* self) { return self->propagation_step_s_; }
//= s2e::dynamics::attitude::Attitude::GetAngularVelocity_b_rad_s
math::Vector<3> Attitude_GetAngularVelocity_b_rad_s(Attitude* self) { return self->angular_velocity_b_rad_s_; }
//= s2e::dynamics::attitude::Attitude::GetQuaternion_i2b
math::Quaternion Attitude_GetQuaternion_i2b(Attitude* self) { return self->quaternion_i2b_; }
//= s2e::dynamics::attitude::Attitude::GetTotalAngularMomentNorm_Nms
double Attitude_GetTotalAngularMomentNorm_Nms(Attitude* self) { return self->angular_momentum_total_b_Nms_.CalcNorm(); }
//= s2e::dynamics::attitude::Attitude::GetKineticEnergy_J
double Attitude_GetKineticEnergy_J(Attitude* self) { return self->kinetic_energy_J_; }
//= s2e::dynamics::attitude::Attitude::GetInertiaTensor_b_kgm2
math::Matrix<3, 3> Attitude_GetInertiaTensor_b_kgm2(Attitude* self) { return self->inertia_tensor_kgm2_; }
//= s2e::dynamics::attitude::Attitude::SetAngularVelocity_b_rad_s
void Attitude_SetAngularVelocity_b_rad_s(Attitude* self, const math::Vector<3> angular_velocity_b_rad_s) { self->angular_velocity_b_rad_s_ = angular_velocity_b_rad_s; }
//= s2e::dynamics::attitude::Attitude::SetQuaternion_i2b
void Attitude_SetQuaternion_i2b(Attitude* self, const math::Quaternion quaternion_i2b) { self->quaternion_i2b_ = quaternion_i2b; }
//= s2e::dynamics::attitude::Attitude::SetTorque_b_Nm
void Attitude_SetTorque_b_Nm(Attitude* self, const math::Vector<3> torque_b_Nm) { self->torque_b_Nm_ = torque_b_Nm; }
//= s2e::dynamics::attitude::Attitude::AddTorque_b_Nm
void Attitude_AddTorque_b_Nm(Attitude* self, const math::Vector<3> torque_b_Nm) { self->torque_b_Nm_ += torque_b_Nm; }
//= s2e::dynamics::attitude::Attitude::SetRwAngularMomentum_b_Nms
void Attitude_SetRwAngularMomentum_b_Nms(Attitude* self, const math::Vector<3> angular_momentum_rw_b_Nms) {
    self->angular_momentum_reaction_wheel_b_Nms_ = angular_momentum_rw_b_Nms;
  }
}

// ---------------------------------------------------------------- dynamics/attitude/attitude_rk4.cpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::AttitudeRk4::AttitudeRk4
void AttitudeRk4_Ctor(AttitudeRk4* self, const math::Vector<3>& angular_velocity_b_rad_s, const math::Quaternion& quaternion_i2b, const math::Matrix<3, 3>& inertia_tensor_kgm2, const math::Vector<3>& torque_b_Nm, const double propagation_step_s, const std::string& simulation_object_name) {
  Attitude_Ctor(self, inertia_tensor_kgm2, simulation_object_name);

  self->angular_velocity_b_rad_s_ = angular_velocity_b_rad_s;
  self->quaternion_i2b_ = quaternion_i2b;
  self->torque_b_Nm_ = torque_b_Nm;
  self->propagation_step_s_ = propagation_step_s;
  self->current_propagation_time_s_ = 0.0;
  self->angular_momentum_reaction_wheel_b_Nms_ = math::Vector<3>(0.0);
  self->previous_inertia_tensor_kgm2_ = self->inertia_tensor_kgm2_;
  self->inverse_inertia_tensor_ = CalcInverseMatrix(self->inertia_tensor_kgm2_);
  self->CalcAngularMomentum();
}
//= s2e::dynamics::attitude::AttitudeRk4::SetParameters
void AttitudeRk4_SetParameters(AttitudeRk4* self, const simulation::MonteCarloSimulationExecutor& mc_simulator) {
  self->Attitude::SetParameters(mc_simulator);
  self->GetInitializedMonteCarloParameterVector(mc_simulator, "angular_velocity_b_rad_s", self->angular_velocity_b_rad_s_);

  // TODO: Consider the following calculation is needed here?
  self->current_propagation_time_s_ = 0.0;
  self->angular_momentum_reaction_wheel_b_Nms_ = math::Vector<3>(0.0);  //!< Consider how to handle this variable
  self->CalcAngularMomentum();
}
//= s2e::dynamics::attitude::AttitudeRk4::Propagate
void AttitudeRk4_Propagate(AttitudeRk4* self, const double end_time_s) {
  if (!self->is_calc_enabled_) return;

  math::Matrix<3, 3> dot_inertia_tensor = (1.0 / (end_time_s - self->current_propagation_time_s_)) * (self->inertia_tensor_kgm2_ - self->previous_inertia_tensor_kgm2_);
  self->torque_inertia_tensor_change_b_Nm_ = dot_inertia_tensor * self->angular_velocity_b_rad_s_;
  self->inverse_inertia_tensor_ = CalcInverseMatrix(self->inertia_tensor_kgm2_);

  while (end_time_s - self->current_propagation_time_s_ - self->propagation_step_s_ > 1.0e-6) {
    self->RungeKuttaOneStep(self->current_propagation_time_s_, self->propagation_step_s_);
    self->current_propagation_time_s_ += self->propagation_step_s_;
  }
  self->RungeKuttaOneStep(self->current_propagation_time_s_, end_time_s - self->current_propagation_time_s_);

  // Update information
  self->current_propagation_time_s_ = end_time_s;
  self->previous_inertia_tensor_kgm2_ = self->inertia_tensor_kgm2_;
  self->CalcAngularMomentum();
}
//= s2e::dynamics::attitude::AttitudeRk4::AttitudeDynamicsAndKinematics
math::Vector<7> AttitudeRk4_AttitudeDynamicsAndKinematics(AttitudeRk4* self, math::Vector<7> x, double t) {
  UNUSED(t);

  math::Vector<7> dxdt;

  math::Vector<3> omega_b;
  for (int i = 0; i < 3; i++) {
    omega_b[i] = x[i];
  }
  math::Vector<3> angular_momentum_total_b_Nms = (self->previous_inertia_tensor_kgm2_ * omega_b) + self->angular_momentum_reaction_wheel_b_Nms_;
  math::Vector<3> rhs =
      self->inverse_inertia_tensor_ * (self->torque_b_Nm_ - math::OuterProduct(omega_b, angular_momentum_total_b_Nms) - self->torque_inertia_tensor_change_b_Nm_);

  for (int i = 0; i < 3; ++i) {
    dxdt[i] = rhs[i];
  }

  math::Vector<4> quaternion_i2b;
  for (int i = 0; i < 4; i++) {
    quaternion_i2b[i] = x[i + 3];
  }

  math::Vector<4> d_quaternion = 0.5 * CalcAngularVelocityMatrix(omega_b) * quaternion_i2b;

  for (int i = 0; i < 4; i++) {
    dxdt[i + 3] = d_quaternion[i];
  }

  return dxdt;
}
//= s2e::dynamics::attitude::AttitudeRk4::RungeKuttaOneStep
void AttitudeRk4_RungeKuttaOneStep(AttitudeRk4* self, double t, double dt) {
  math::Vector<7> x;
  for (int i = 0; i < 3; i++) {
    x[i] = self->angular_velocity_b_rad_s_[i];
  }
  for (int i = 0; i < 4; i++) {
    x[i + 3] = self->quaternion_i2b_[i];
  }

  math::Vector<7> k1, k2, k3, k4;
  math::Vector<7> xk2, xk3, xk4;

  k1 = self->AttitudeDynamicsAndKinematics(x, t);
  xk2 = x + (dt / 2.0) * k1;

  k2 = self->AttitudeDynamicsAndKinematics(xk2, (t + dt / 2.0));
  xk3 = x + (dt / 2.0) * k2;

  k3 = self->AttitudeDynamicsAndKinematics(xk3, (t + dt / 2.0));
  xk4 = x + dt * k3;

  k4 = self->AttitudeDynamicsAndKinematics(xk4, (t + dt));

  math::Vector<7> next_x = x + (dt / 6.0) * (k1 + 2.0 * k2 + 2.0 * k3 + k4);

  for (int i = 0; i < 3; i++) {
    self->angular_velocity_b_rad_s_[i] = next_x[i];
  }
  for (int i = 0; i < 4; i++) {
    self->quaternion_i2b_[i] = next_x[i + 3];
  }
  self->quaternion_i2b_.Normalize();
}
}

// ---------------------------------------------------------------- dynamics/attitude/attitude_with_cantilever_vibration.cpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::AttitudeWithCantileverVibration::AttitudeWithCantileverVibration
void AttitudeWithCantileverVibration_Ctor(AttitudeWithCantileverVibration* self, const math::Vector<3>& angular_velocity_b_rad_s, const math::Quaternion& quaternion_i2b, const math::Matrix<3, 3>& inertia_tensor_kgm2, const math::Matrix<3, 3>& inertia_tensor_cantilever_kgm2, const double damping_ratio_cantilever, const double intrinsic_angular_velocity_cantilever_rad_s, const math::Vector<3>& torque_b_Nm, const double propagation_step_s, const std::string& simulation_object_name) {
  Attitude_Ctor(self, inertia_tensor_kgm2, simulation_object_name);
  self->angular_velocity_cantilever_rad_s_ = math::Vector<3>{0.0};
  self->euler_angular_cantilever_rad_ = math::Vector<3>{0.0};
  self->numerical_integrator_ = numerical_integration::NumericalIntegratorManager<13>(propagation_step_s, self->attitude_ode_, numerical_integration::NumericalIntegrationMethod::kRk4);
  //!< TODO: Set NumericalIntegrationMethod in *.ini file
  self->angular_velocity_b_rad_s_ = angular_velocity_b_rad_s;
  self->quaternion_i2b_ = quaternion_i2b;
  self->torque_b_Nm_ = torque_b_Nm;
  self->propagation_step_s_ = propagation_step_s;
  self->current_propagation_time_s_ = 0.0;
  self->angular_momentum_reaction_wheel_b_Nms_ = math::Vector<3>(0.0);

  self->attitude_ode_.SetInertiaTensorCantilever_kgm2(inertia_tensor_cantilever_kgm2);
  self->attitude_ode_.SetPreviousInertiaTensor_kgm2(self->inertia_tensor_kgm2_);
  double attenuation_coefficient = 2 * damping_ratio_cantilever * intrinsic_angular_velocity_cantilever_rad_s;
  self->attitude_ode_.SetAttenuationCoefficient(attenuation_coefficient);
  double spring_coefficient = pow(intrinsic_angular_velocity_cantilever_rad_s, 2.0);
  self->attitude_ode_.SetSpringCoefficient(spring_coefficient);
  self->attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(self->inertia_tensor_kgm2_));
  self->attitude_ode_.SetInverseTotalInertiaTensor(CalcInverseMatrix(self->inertia_tensor_kgm2_ + inertia_tensor_cantilever_kgm2));
  math::Matrix<3, 3> inverse_equivalent_inertia_tensor_cantilever =
      self->attitude_ode_.GetInverseInertiaTensor() * (self->inertia_tensor_kgm2_ + inertia_tensor_cantilever_kgm2);
  self->attitude_ode_.SetInverseEquivalentInertiaTensorCantilever(inverse_equivalent_inertia_tensor_cantilever);
  self->attitude_ode_.SetTorque_b_Nm(self->torque_b_Nm_);
  self->attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(self->angular_momentum_reaction_wheel_b_Nms_);

  self->CalcAngularMomentum();
}
//= s2e::dynamics::attitude::AttitudeWithCantileverVibration::SetParameters
void AttitudeWithCantileverVibration_SetParameters(AttitudeWithCantileverVibration* self, const simulation::MonteCarloSimulationExecutor& mc_simulator) {
  self->Attitude::SetParameters(mc_simulator);
  self->GetInitializedMonteCarloParameterVector(mc_simulator, "angular_velocity_b_rad_s", self->angular_velocity_b_rad_s_);

  // TODO: Consider the following calculation is needed here?
  self->current_propagation_time_s_ = 0.0;
  self->angular_momentum_reaction_wheel_b_Nms_ = math::Vector<3>(0.0);  //!< TODO: Consider how to handle this variable
  self->CalcAngularMomentum();
}
//= s2e::dynamics::attitude::AttitudeWithCantileverVibration::Propagate
void AttitudeWithCantileverVibration_Propagate(AttitudeWithCantileverVibration* self, const double end_time_s) {
  if (!self->is_calc_enabled_) return;

  math::Matrix<3, 3> previous_inertia_tensor_kgm2 = self->attitude_ode_.GetPreviousInertiaTensor_kgm2();
  assert(end_time_s - self->current_propagation_time_s_ > 1e-6);
  math::Matrix<3, 3> dot_inertia_tensor = (1.0 / (end_time_s - self->current_propagation_time_s_)) * (self->inertia_tensor_kgm2_ - previous_inertia_tensor_kgm2);
  math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * self->angular_velocity_b_rad_s_;
  self->attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
  self->attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(self->inertia_tensor_kgm2_));
  self->attitude_ode_.SetTorque_b_Nm(self->torque_b_Nm_);
  self->attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(self->angular_momentum_reaction_wheel_b_Nms_);

  math::Vector<13> state = self->attitude_ode_.SetStateFromPhysicalQuantities(self->angular_velocity_b_rad_s_, self->angular_velocity_cantilever_rad_s_,
                                                                        self->quaternion_i2b_, self->euler_angular_cantilever_rad_);
  self->numerical_integrator_.GetIntegrator()->SetState(self->current_propagation_time_s_, state);
  self->numerical_integrator_.GetIntegrator()->SetStepWidth(self->propagation_step_s_);
  while (end_time_s - self->current_propagation_time_s_ - self->propagation_step_s_ > 1.0e-6) {
    self->numerical_integrator_.GetIntegrator()->Integrate();
    self->current_propagation_time_s_ += self->propagation_step_s_;
  }
  self->numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - self->current_propagation_time_s_);
  self->numerical_integrator_.GetIntegrator()->Integrate();
  self->attitude_ode_.SetPhysicalQuantitiesFromState(self->numerical_integrator_.GetIntegrator()->GetState(), self->angular_velocity_b_rad_s_,
                                               self->angular_velocity_cantilever_rad_s_, self->quaternion_i2b_, self->euler_angular_cantilever_rad_);
  self->quaternion_i2b_.Normalize();

  // Update information
  self->current_propagation_time_s_ = end_time_s;
  self->attitude_ode_.SetPreviousInertiaTensor_kgm2(self->inertia_tensor_kgm2_);
  self->CalcAngularMomentum();
}
}

// ---------------------------------------------------------------- dynamics/attitude/controlled_attitude.cpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::ControlledAttitude::ControlledAttitude
void ControlledAttitude_Ctor(ControlledAttitude* self, const AttitudeControlMode main_mode, const AttitudeControlMode sub_mode, const math::Quaternion quaternion_i2b, const math::Vector<3> main_target_direction_b, const math::Vector<3> sub_target_direction_b, const math::Matrix<3, 3>& inertia_tensor_kgm2, const geodesy::GeodeticPosition target_earth_surface_position, const environment::LocalCelestialInformation* local_celestial_information, const orbit::Orbit* orbit, const std::string& simulation_object_name) {
  Attitude_Ctor(self, inertia_tensor_kgm2, simulation_object_name);
  self->main_mode_ = main_mode;
  self->sub_mode_ = sub_mode;
  self->main_target_direction_b_ = main_target_direction_b;
  self->sub_target_direction_b_ = sub_target_direction_b;
  self->previous_calc_time_s_ = -1.0;
  self->target_earth_surface_position_ = target_earth_surface_position;
  self->local_celestial_information_ = local_celestial_information;
  self->orbit_ = orbit;

  self->quaternion_i2b_ = quaternion_i2b;

  self->Initialize();
}
//= s2e::dynamics::attitude::ControlledAttitude::Initialize
void ControlledAttitude_Initialize(ControlledAttitude* self) {
  if (self->main_mode_ >= AttitudeControlMode::kNoControl) self->is_calc_enabled_ = false;
  if (self->sub_mode_ >= AttitudeControlMode::kNoControl) self->is_calc_enabled_ = false;
  if (self->main_mode_ == AttitudeControlMode::kInertialStabilize) {
  } else  // Pointing control
  {
    // sub mode check
    if (self->main_mode_ == self->sub_mode_) {
      std::cout << "sub mode should not equal to main mode. \n";
      self->is_calc_enabled_ = false;
      return;
    }
    // pointing direction check
    self->main_target_direction_b_ = self->main_target_direction_b_.CalcNormalizedVector();
    self->sub_target_direction_b_ = self->sub_target_direction_b_.CalcNormalizedVector();
    double tmp = InnerProduct(self->main_target_direction_b_, self->sub_target_direction_b_);
    tmp = std::abs(tmp);
    if (tmp > cos(self->kMinDirectionAngle_rad)) {
      std::cout << "sub target direction should separate from the main target direction. \n";
      self->is_calc_enabled_ = false;
      return;
    }
  }
  return;
}
//= s2e::dynamics::attitude::ControlledAttitude::Propagate
void ControlledAttitude_Propagate(ControlledAttitude* self, const double end_time_s) {
  math::Vector<3> main_direction_i, sub_direction_i;
  if (!self->is_calc_enabled_) return;

  if (self->main_mode_ == AttitudeControlMode::kInertialStabilize) {
    // quaternion_i2b_ = quaternion_i2t_;
    return;
  }

  // Calc main target direction
  main_direction_i = self->CalcTargetDirection_i(self->main_mode_);
  // Calc sub target direction
  sub_direction_i = self->CalcTargetDirection_i(self->sub_mode_);
  // Calc attitude
  self->PointingControl(main_direction_i, sub_direction_i);
  // Calc angular velocity
  self->CalcAngularVelocity(end_time_s);
  return;
}
//= s2e::dynamics::attitude::ControlledAttitude::CalcTargetDirection_i
math::Vector<3> ControlledAttitude_CalcTargetDirection_i(ControlledAttitude* self, AttitudeControlMode mode) {
  math::Vector<3> direction;
  if (mode == AttitudeControlMode::kSunPointing) {
    direction = self->local_celestial_information_->GetPositionFromSpacecraft_i_m("SUN");
    // When the local_celestial_information is not initialized. FIXME: This is temporary codes for attitude initialize.
    if (direction.CalcNorm() == 0.0) {
      math::Vector<3> sun_position_i_m = self->local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN");
      math::Vector<3> spacecraft_position_i_m = self->orbit_->GetPosition_i_m();
      direction = sun_position_i_m - spacecraft_position_i_m;
    }
  } else if (mode == AttitudeControlMode::kEarthCenterPointing) {
    direction = self->local_celestial_information_->GetPositionFromSpacecraft_i_m("EARTH");
    // When the local_celestial_information is not initialized. FIXME: This is temporary codes for attitude initialize.
    if (direction.CalcNorm() == 0.0) {
      math::Vector<3> earth_position_i_m = self->local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("EARTH");
      math::Vector<3> spacecraft_position_i_m = self->orbit_->GetPosition_i_m();
      direction = earth_position_i_m - spacecraft_position_i_m;
    }
  } else if (mode == AttitudeControlMode::kVelocityDirectionPointing) {
    direction = self->orbit_->GetVelocity_i_m_s();
  } else if (mode == AttitudeControlMode::kGroundSpeedDirectionPointing) {
    math::Matrix<3, 3> dcm_ecef2eci = self->local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef().Transpose();
    direction = dcm_ecef2eci * self->orbit_->GetVelocity_ecef_m_s();
  } else if (mode == AttitudeControlMode::kOrbitNormalPointing) {
    direction = OuterProduct(self->orbit_->GetPosition_i_m(), self->orbit_->GetVelocity_i_m_s());
  } else if (mode == AttitudeControlMode::kEarthSurfacePointing) {
    math::Vector<3> earth_surface_target_position_ecef_m = self->target_earth_surface_position_.CalcEcefPosition();
    math::Vector<3> earth_surface_target_position_i_m =
        self->local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef().Transpose() *
        earth_surface_target_position_ecef_m;

    direction = earth_surface_target_position_i_m - self->orbit_->GetPosition_i_m();
  }
  direction = direction.CalcNormalizedVector();
  return direction;
}
//= s2e::dynamics::attitude::ControlledAttitude::PointingControl
void ControlledAttitude_PointingControl(ControlledAttitude* self, const math::Vector<3> main_direction_i, const math::Vector<3> sub_direction_i) {
  // Calc DCM ECI->Target
  math::Matrix<3, 3> dcm_t2i = self->CalcDcm(main_direction_i, sub_direction_i);
  // Calc DCM Target->body
  math::Matrix<3, 3> dcm_t2b = self->CalcDcm(self->main_target_direction_b_, self->sub_target_direction_b_);
  // Calc DCM ECI->body
  math::Matrix<3, 3> dcm_i2b = dcm_t2b * dcm_t2i.Transpose();
  // Convert to Quaternion
  self->quaternion_i2b_ = math::Quaternion::ConvertFromDcm(dcm_i2b);
}
//= s2e::dynamics::attitude::ControlledAttitude::CalcDcm
math::Matrix<3, 3> ControlledAttitude_CalcDcm(ControlledAttitude* self, const math::Vector<3> main_direction, const math::Vector<3> sub_direction) {
  // Calc basis vectors
  math::Vector<3> ex, ey, ez;
  ex = main_direction;
  math::Vector<3> tmp1 = OuterProduct(ex, sub_direction);
  math::Vector<3> tmp2 = OuterProduct(tmp1, ex);
  ey = tmp2.CalcNormalizedVector();
  math::Vector<3> tmp3 = OuterProduct(ex, ey);
  ez = tmp3.CalcNormalizedVector();

  // Generate DCM
  math::Matrix<3, 3> dcm;
  for (int i = 0; i < 3; i++) {
    dcm[i][0] = ex[i];
    dcm[i][1] = ey[i];
    dcm[i][2] = ez[i];
  }
  return dcm;
}
//= s2e::dynamics::attitude::ConvertStringToCtrlMode
AttitudeControlMode _ConvertStringToCtrlMode(const std::string mode) {
  if (mode == "INERTIAL_STABILIZE") {
    return AttitudeControlMode::kInertialStabilize;
  } else if (mode == "SUN_POINTING") {
    return AttitudeControlMode::kSunPointing;
  } else if (mode == "EARTH_CENTER_POINTING") {
    return AttitudeControlMode::kEarthCenterPointing;
  } else if (mode == "VELOCITY_DIRECTION_POINTING") {
    return AttitudeControlMode::kVelocityDirectionPointing;
  } else if (mode == "GROUND_SPEED_DIRECTION_POINTING") {
    return AttitudeControlMode::kGroundSpeedDirectionPointing;
  } else if (mode == "ORBIT_NORMAL_POINTING") {
    return AttitudeControlMode::kOrbitNormalPointing;
  } else if (mode == "EARTH_SURFACE_POINTING") {
    return AttitudeControlMode::kEarthSurfacePointing;
  } else {
    return AttitudeControlMode::kNoControl;
  }
}
//= s2e::dynamics::attitude::ControlledAttitude::CalcAngularVelocity
void ControlledAttitude_CalcAngularVelocity(ControlledAttitude* self, const double current_time_s) {
  math::Vector<3> controlled_torque_b_Nm(0.0);

  if (self->previous_calc_time_s_ > 0.0) {
    double time_diff_sec = current_time_s - self->previous_calc_time_s_;
    math::Quaternion prev_q_b2i = self->previous_quaternion_i2b_.Conjugate();
    math::Quaternion q_diff = prev_q_b2i * self->quaternion_i2b_;
    q_diff = (2.0 / time_diff_sec) * q_diff;

    math::Vector<3> angular_acc_b_rad_s2_;
    for (int i = 0; i < 3; i++) {
      self->angular_velocity_b_rad_s_[i] = q_diff[i];
      angular_acc_b_rad_s2_[i] = (self->previous_omega_b_rad_s_[i] - self->angular_velocity_b_rad_s_[i]) / time_diff_sec;
    }
    math::Matrix<3, 3> inv_inertia_tensor = CalcInverseMatrix(self->inertia_tensor_kgm2_);
    controlled_torque_b_Nm = inv_inertia_tensor * angular_acc_b_rad_s2_;
  } else {
    self->angular_velocity_b_rad_s_ = math::Vector<3>(0.0);
    controlled_torque_b_Nm = math::Vector<3>(0.0);
  }
  // Add torque with disturbances
  self->AddTorque_b_Nm(controlled_torque_b_Nm);
  // save previous values
  self->previous_calc_time_s_ = current_time_s;
  self->previous_quaternion_i2b_ = self->quaternion_i2b_;
  self->previous_omega_b_rad_s_ = self->angular_velocity_b_rad_s_;
}
}

// ---------------------------------------------------------------- dynamics/attitude/controlled_attitude.hpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::ControlledAttitude::SetMainMode
void ControlledAttitude_SetMainMode(ControlledAttitude* self, const AttitudeControlMode main_mode) { self->main_mode_ = main_mode; }
//= s2e::dynamics::attitude::ControlledAttitude::SetSubMode
void ControlledAttitude_SetSubMode(ControlledAttitude* self, const AttitudeControlMode sub_mode) { self->sub_mode_ = sub_mode; }
//= s2e::dynamics::attitude::ControlledAttitude::SetQuaternion_i2t
void ControlledAttitude_SetQuaternion_i2t(ControlledAttitude* self, const math::Quaternion quaternion_i2t) { self->quaternion_i2b_ = quaternion_i2t; }
//= s2e::dynamics::attitude::ControlledAttitude::SetMainTargetDirection_b
void ControlledAttitude_SetMainTargetDirection_b(ControlledAttitude* self, math::Vector<3> main_target_direction_b) { self->main_target_direction_b_ = main_target_direction_b; }
//= s2e::dynamics::attitude::ControlledAttitude::SetSubTargetDirection_b
void ControlledAttitude_SetSubTargetDirection_b(ControlledAttitude* self, math::Vector<3> sub_target_direction_b) { self->sub_target_direction_b_ = sub_target_direction_b; }
}

// ---------------------------------------------------------------- dynamics/attitude/initialize_attitude.cpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::InitAttitude
Attitude* _InitAttitude(std::string file_name, const orbit::Orbit* orbit, const environment::LocalCelestialInformation* local_celestial_information, const double step_width_s, const math::Matrix<3, 3>& inertia_tensor_kgm2, const int spacecraft_id) {
  setting_file_reader::IniAccess ini_file(file_name);
  const char* section_ = "ATTITUDE";
  std::string mc_name = "attitude" + std::to_string(spacecraft_id);
  Attitude* attitude;

  const std::string propagate_mode = ini_file.ReadString(section_, "propagate_mode");
  const std::string initialize_mode = ini_file.ReadString(section_, "initialize_mode");

  math::Vector<3> omega_b;
  math::Quaternion quaternion_i2b;
  math::Vector<3> torque_b;
  if (initialize_mode == "CONTROLLED") {
    // Initialize with Controlled attitude (attitude_tmp temporary used)
    setting_file_reader::IniAccess ini_file_ca(file_name);
    const char* section_ca_ = "CONTROLLED_ATTITUDE";
    const std::string main_mode_in = ini_file.ReadString(section_ca_, "main_mode");
    const std::string sub_mode_in = ini_file.ReadString(section_ca_, "sub_mode");

    AttitudeControlMode main_mode = ConvertStringToCtrlMode(main_mode_in);
    AttitudeControlMode sub_mode = ConvertStringToCtrlMode(sub_mode_in);

    ini_file_ca.ReadQuaternion(section_, "initial_quaternion_i2b", quaternion_i2b);
    math::Vector<3> main_target_direction_b, sub_target_direction_b;
    ini_file_ca.ReadVector(section_ca_, "main_pointing_direction_b", main_target_direction_b);
    ini_file_ca.ReadVector(section_ca_, "sub_pointing_direction_b", sub_target_direction_b);
    std::string mc_name_temp = section_ + std::to_string(spacecraft_id) + "_TEMP";

    // Earth surface pointing mode
    double latitude_deg, longitude_deg, altitude_m;
    latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
    longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
    geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);

    Attitude* attitude_temp = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b,
                                                     inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
    attitude_temp->Propagate(step_width_s);
    quaternion_i2b = attitude_temp->GetQuaternion_i2b();
    delete attitude_temp;
    omega_b = math::Vector<3>(0.0);
    torque_b = math::Vector<3>(0.0);
  } else {
    // Including the case: initialize_mode == "MANUAL"
    ini_file.ReadVector(section_, "initial_angular_velocity_b_rad_s", omega_b);
    ini_file.ReadQuaternion(section_, "initial_quaternion_i2b", quaternion_i2b);
    ini_file.ReadVector(section_, "initial_torque_b_Nm", torque_b);
  }

  if (propagate_mode == "RK4") {
    attitude = new AttitudeRk4(omega_b, quaternion_i2b, inertia_tensor_kgm2, torque_b, step_width_s, mc_name);
  } else if (propagate_mode == "CANTILEVER_VIBRATION") {
    std::string ini_structure_name = ini_file.ReadString("SETTING_FILES", "structure_file");
    setting_file_reader::IniAccess ini_structure(ini_structure_name);

    const char* section_cantilever = "CANTILEVER_PARAMETERS";
    math::Matrix<3, 3> inertia_tensor_cantilever_kgm2;
    math::Vector<9> inertia_vec;
    ini_structure.ReadVector(section_cantilever, "inertia_tensor_cantilever_kgm2", inertia_vec);
    for (int i = 0; i < 3; i++) {
      for (int j = 0; j < 3; j++) {
        inertia_tensor_cantilever_kgm2[i][j] = inertia_vec[i * 3 + j];
      }
    }
    double damping_ratio_cantilever = ini_structure.ReadDouble(section_cantilever, "damping_ratio_cantilever");
    double intrinsic_angular_velocity_cantilever_rad_s = ini_structure.ReadDouble(section_cantilever, "intrinsic_angular_velocity_cantilever_rad_s");

    attitude =
        new AttitudeWithCantileverVibration(omega_b, quaternion_i2b, inertia_tensor_kgm2, inertia_tensor_cantilever_kgm2, damping_ratio_cantilever,
                                            intrinsic_angular_velocity_cantilever_rad_s, torque_b, step_width_s, mc_name);
  } else if (propagate_mode == "CONTROLLED") {
    // Controlled attitude
    setting_file_reader::IniAccess ini_file_ca(file_name);
    const char* section_ca_ = "CONTROLLED_ATTITUDE";
    const std::string main_mode_in = ini_file.ReadString(section_ca_, "main_mode");
    const std::string sub_mode_in = ini_file.ReadString(section_ca_, "sub_mode");

    AttitudeControlMode main_mode = ConvertStringToCtrlMode(main_mode_in);
    AttitudeControlMode sub_mode = ConvertStringToCtrlMode(sub_mode_in);
    ini_file_ca.ReadQuaternion(section_, "initial_quaternion_i2b", quaternion_i2b);
    math::Vector<3> main_target_direction_b, sub_target_direction_b;
    ini_file_ca.ReadVector(section_ca_, "main_pointing_direction_b", main_target_direction_b);
    ini_file_ca.ReadVector(section_ca_, "sub_pointing_direction_b", sub_target_direction_b);

    // Earth surface pointing mode
    double latitude_deg, longitude_deg, altitude_m;
    latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
    longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
    geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);

    attitude = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b, inertia_tensor_kgm2,
                                      target_position, local_celestial_information, orbit, mc_name);
  } else {
    std::cerr << "ERROR: attitude propagation mode: " << propagate_mode << " is not defined!" << std::endl;
    std::cerr << "The attitude mode is automatically set as RK4" << std::endl;

    attitude = new AttitudeRk4(omega_b, quaternion_i2b, inertia_tensor_kgm2, torque_b, step_width_s, mc_name);
  }

  return attitude;
}
}

// ---------------------------------------------------------------- dynamics/attitude/ode_attitude_with_cantilever_vibration.hpp
namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetStateFromPhysicalQuantities
math::Vector<13> AttitudeWithCantileverVibrationOde_SetStateFromPhysicalQuantities(AttitudeWithCantileverVibrationOde* self, const math::Vector<3> angular_velocity_b_rad_s, const math::Vector<3> angular_velocity_cantilever_rad_s, const math::Quaternion quaternion_i2b, const math::Vector<3> euler_angule_cantilever_rad) {
    math::Vector<13> state;
    for (size_t i = 0; i < 3; i++) {
      state[i] = angular_velocity_b_rad_s[i];
    }
    for (size_t i = 0; i < 3; i++) {
      state[i + 3] = angular_velocity_cantilever_rad_s[i];
    }
    for (size_t i = 0; i < 4; i++) {
      state[i + 6] = quaternion_i2b[i];
    }
    for (size_t i = 0; i < 3; i++) {
      state[i + 10] = euler_angule_cantilever_rad[i];
    }
    return state;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetPhysicalQuantitiesFromState
void AttitudeWithCantileverVibrationOde_SetPhysicalQuantitiesFromState(AttitudeWithCantileverVibrationOde* self, const math::Vector<13> state, math::Vector<3>& angular_velocity_b_rad_s, math::Vector<3>& angular_velocity_cantilever_rad_s, math::Quaternion& quaternion_i2b, math::Vector<3>& euler_angular_cantilever_rad) {
    for (size_t i = 0; i < 3; i++) {
      angular_velocity_b_rad_s[i] = state[i];
    }
    for (size_t i = 0; i < 3; i++) {
      angular_velocity_cantilever_rad_s[i] = state[i + 3];
    }
    for (size_t i = 0; i < 4; i++) {
      quaternion_i2b[i] = state[i + 6];
    }
    for (size_t i = 0; i < 3; i++) {
      euler_angular_cantilever_rad[i] = state[i + 10];
    }
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::DerivativeFunction
math::Vector<13> AttitudeWithCantileverVibrationOde_DerivativeFunction(AttitudeWithCantileverVibrationOde* self, const double time_s, const math::Vector<13>& state) {
    UNUSED(time_s);

    math::Vector<13> output;

    math::Vector<3> omega_b_rad_s;
    math::Vector<3> omega_cantilever_rad_s;
    math::Quaternion quaternion_i2b;
    math::Vector<3> euler_angle_cantilever_rad;

    self->SetPhysicalQuantitiesFromState(state, omega_b_rad_s, omega_cantilever_rad_s, quaternion_i2b, euler_angle_cantilever_rad);

    math::Vector<3> angular_momentum_total_b_Nms = (self->previous_inertia_tensor_kgm2_ * omega_b_rad_s) + self->angular_momentum_reaction_wheel_b_Nms_;
    math::Vector<3> net_torque_b_Nm = self->torque_b_Nm_ - math::OuterProduct(omega_b_rad_s, angular_momentum_total_b_Nms) - self->torque_inertia_tensor_b_Nm_;

    math::Vector<3> angular_accelaration_cantilever_rad_s2 =
        -(self->inverse_equivalent_inertia_tensor_cantilever_ *
          (self->attenuation_coefficient_ * omega_cantilever_rad_s + self->spring_coefficient_ * euler_angle_cantilever_rad)) -
        self->inverse_inertia_tensor_ * net_torque_b_Nm;

    math::Vector<3> rhs =
        self->inverse_total_inertia_tensor_ * (net_torque_b_Nm - self->inertia_tensor_cantilever_kgm2_ * angular_accelaration_cantilever_rad_s2);

    for (size_t i = 0; i < 3; ++i) {
      output[i] = rhs[i];
    }

    for (size_t i = 0; i < 3; i++) {
      output[i + 3] = angular_accelaration_cantilever_rad_s2[i];
    }

    math::Vector<4> d_quaternion = 0.5 * CalcAngularVelocityMatrix(omega_b_rad_s) * (math::Vector<4>(quaternion_i2b));

    for (size_t i = 0; i < 4; i++) {
      output[i + 6] = d_quaternion[i];
    }

    for (size_t i = 0; i < 3; i++) {
      output[i + 10] = omega_cantilever_rad_s[i];
    }

    // The function is used to output the derivative of each corresponding physical quantity.
    output = self->SetStateFromPhysicalQuantities(rhs, angular_accelaration_cantilever_rad_s2, math::Quaternion(d_quaternion), omega_cantilever_rad_s);

    return output;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetAttenuationCoefficient
double AttitudeWithCantileverVibrationOde_GetAttenuationCoefficient(AttitudeWithCantileverVibrationOde* self) { return self->attenuation_coefficient_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetSpringCoefficient
double AttitudeWithCantileverVibrationOde_GetSpringCoefficient(AttitudeWithCantileverVibrationOde* self) { return self->spring_coefficient_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetTorqueInertiaTensor_b_Nm
math::Vector<3> AttitudeWithCantileverVibrationOde_GetTorqueInertiaTensor_b_Nm(AttitudeWithCantileverVibrationOde* self) { return self->torque_inertia_tensor_b_Nm_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetInverseInertiaTensor
math::Matrix<3, 3> AttitudeWithCantileverVibrationOde_GetInverseInertiaTensor(AttitudeWithCantileverVibrationOde* self) { return self->inverse_inertia_tensor_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetPreviousInertiaTensor_kgm2
math::Matrix<3, 3> AttitudeWithCantileverVibrationOde_GetPreviousInertiaTensor_kgm2(AttitudeWithCantileverVibrationOde* self) { return self->previous_inertia_tensor_kgm2_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetInertiaTensorCantilever_kgm2
math::Matrix<3, 3> AttitudeWithCantileverVibrationOde_GetInertiaTensorCantilever_kgm2(AttitudeWithCantileverVibrationOde* self) { return self->inertia_tensor_cantilever_kgm2_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetInverseEquivalentInertiaTensorCantilever
math::Matrix<3, 3> AttitudeWithCantileverVibrationOde_GetInverseEquivalentInertiaTensorCantilever(AttitudeWithCantileverVibrationOde* self) { return self->inverse_equivalent_inertia_tensor_cantilever_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::GetInverseTotalInertiaTensor
math::Matrix<3, 3> AttitudeWithCantileverVibrationOde_GetInverseTotalInertiaTensor(AttitudeWithCantileverVibrationOde* self) { return self->inverse_total_inertia_tensor_; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetAttenuationCoefficient
void AttitudeWithCantileverVibrationOde_SetAttenuationCoefficient(AttitudeWithCantileverVibrationOde* self, const double attenuation_coefficient) { self->attenuation_coefficient_ = attenuation_coefficient; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetSpringCoefficient
void AttitudeWithCantileverVibrationOde_SetSpringCoefficient(AttitudeWithCantileverVibrationOde* self, const double spring_coefficient) { self->spring_coefficient_ = spring_coefficient; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetTorque_b_Nm
void AttitudeWithCantileverVibrationOde_SetTorque_b_Nm(AttitudeWithCantileverVibrationOde* self, const math::Vector<3> torque_b_Nm) { self->torque_b_Nm_ = torque_b_Nm; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetTorqueInertiaTensor_b_Nm
void AttitudeWithCantileverVibrationOde_SetTorqueInertiaTensor_b_Nm(AttitudeWithCantileverVibrationOde* self, const math::Vector<3> torque_inertia_tensor_b_Nm) {
    self->torque_inertia_tensor_b_Nm_ = torque_inertia_tensor_b_Nm;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetAngularMomentumReactionWheel_b_Nms
void AttitudeWithCantileverVibrationOde_SetAngularMomentumReactionWheel_b_Nms(AttitudeWithCantileverVibrationOde* self, const math::Vector<3> angular_momentum_reaction_wheel_b_Nms) {
    self->angular_momentum_reaction_wheel_b_Nms_ = angular_momentum_reaction_wheel_b_Nms;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetInverseInertiaTensor
void AttitudeWithCantileverVibrationOde_SetInverseInertiaTensor(AttitudeWithCantileverVibrationOde* self, const math::Matrix<3, 3> inverse_inertia_tensor) { self->inverse_inertia_tensor_ = inverse_inertia_tensor; }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetPreviousInertiaTensor_kgm2
void AttitudeWithCantileverVibrationOde_SetPreviousInertiaTensor_kgm2(AttitudeWithCantileverVibrationOde* self, const math::Matrix<3, 3> previous_inertia_tensor_kgm2) {
    self->previous_inertia_tensor_kgm2_ = previous_inertia_tensor_kgm2;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetInertiaTensorCantilever_kgm2
void AttitudeWithCantileverVibrationOde_SetInertiaTensorCantilever_kgm2(AttitudeWithCantileverVibrationOde* self, const math::Matrix<3, 3> inertia_tensor_cantilever_kgm2) {
    self->inertia_tensor_cantilever_kgm2_ = inertia_tensor_cantilever_kgm2;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetInverseEquivalentInertiaTensorCantilever
void AttitudeWithCantileverVibrationOde_SetInverseEquivalentInertiaTensorCantilever(AttitudeWithCantileverVibrationOde* self, const math::Matrix<3, 3> inverse_equivalent_inertia_tensor_cantilever) {
    self->inverse_equivalent_inertia_tensor_cantilever_ = inverse_equivalent_inertia_tensor_cantilever;
  }
//= s2e::dynamics::attitude::AttitudeWithCantileverVibrationOde::SetInverseTotalInertiaTensor
void AttitudeWithCantileverVibrationOde_SetInverseTotalInertiaTensor(AttitudeWithCantileverVibrationOde* self, const math::Matrix<3, 3> inverse_total_inertia_tensor) {
    self->inverse_total_inertia_tensor_ = inverse_total_inertia_tensor;
  }
}

// ---------------------------------------------------------------- dynamics/dynamics.cpp
namespace s2e::dynamics::ref {
//= s2e::dynamics::Dynamics::Dynamics
void Dynamics_Ctor(Dynamics* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::SimulationTime* simulation_time, const environment::LocalEnvironment* local_environment, const int spacecraft_id, spacecraft::Structure* structure, simulation::RelativeInformation* relative_information) {
  self->structure_ = structure;
  self->local_environment_ = local_environment;

  self->Initialize(simulation_configuration, simulation_time, spacecraft_id, structure, relative_information);
}
//= s2e::dynamics::Dynamics::Initialize
void Dynamics_Initialize(Dynamics* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::SimulationTime* simulation_time, const int spacecraft_id, spacecraft::Structure* structure, simulation::RelativeInformation* relative_information) {
  const environment::LocalCelestialInformation& local_celestial_information = self->local_environment_->GetCelestialInformation();
  // Initialize
  self->orbit_ = orbit::InitOrbit(&(local_celestial_information.GetGlobalInformation()), simulation_configuration->spacecraft_file_list_[spacecraft_id],
                            simulation_time->GetOrbitRkStepTime_s(), simulation_time->GetCurrentTime_jd(),
                            local_celestial_information.GetGlobalInformation().GetCenterBodyGravityConstant_m3_s2(), "ORBIT", relative_information);
  self->attitude_ = attitude::InitAttitude(simulation_configuration->spacecraft_file_list_[spacecraft_id], self->orbit_, &local_celestial_information,
                                     simulation_time->GetAttitudeRkStepTime_s(), structure->GetKinematicsParameters().GetInertiaTensor_b_kgm2(),
                                     spacecraft_id);
  self->temperature_ = thermal::InitTemperature(simulation_configuration->spacecraft_file_list_[spacecraft_id], simulation_time->GetThermalRkStepTime_s(),
                                          &(self->local_environment_->GetSolarRadiationPressure()), &(self->local_environment_->GetEarthAlbedo()),
                                          &(self->local_environment_->GetEarthInfrared()));

  // To get initial value
  self->orbit_->UpdateByAttitude(self->attitude_->GetQuaternion_i2b());
}
//= s2e::dynamics::Dynamics::Update
void Dynamics_Update(Dynamics* self, const environment::SimulationTime* simulation_time, const environment::LocalCelestialInformation* local_celestial_information) {
  // Attitude propagation
  if (simulation_time->GetAttitudePropagateFlag()) {
    self->attitude_->Propagate(simulation_time->GetElapsedTime_s());
  }
  // Orbit Propagation
  if (simulation_time->GetOrbitPropagateFlag()) {
    self->orbit_->Propagate(simulation_time->GetElapsedTime_s(), simulation_time->GetCurrentTime_jd());
  }
  // Attitude dependent update
  self->orbit_->UpdateByAttitude(self->attitude_->GetQuaternion_i2b());

  // Thermal
  if (simulation_time->GetThermalPropagateFlag()) {
    self->temperature_->Propagate(local_celestial_information, simulation_time->GetElapsedTime_s());
  }
}
//= s2e::dynamics::Dynamics::ClearForceTorque
void Dynamics_ClearForceTorque(Dynamics* self) {
  math::Vector<3> zero(0.0);
  self->attitude_->SetTorque_b_Nm(zero);
  self->orbit_->SetAcceleration_i_m_s2(zero);
}
//= s2e::dynamics::Dynamics::LogSetup
void Dynamics_LogSetup(Dynamics* self, logger::Logger& logger) {
  logger.AddLogList(self->attitude_);
  logger.AddLogList(self->orbit_);
  logger.AddLogList(self->temperature_);
}
}

// ---------------------------------------------------------------- dynamics/dynamics.hpp
namespace s2e::dynamics::ref {
//= s2e::dynamics::Dynamics::AddTorque_b_Nm
void Dynamics_AddTorque_b_Nm(Dynamics* self, math::Vector<3> torque_b_Nm) { self->attitude_->AddTorque_b_Nm(torque_b_Nm); }
//= s2e::dynamics::Dynamics::AddForce_b_N
void Dynamics_AddForce_b_N(Dynamics* self, math::Vector<3> force_b_N) {
    self->orbit_->AddForce_b_N(force_b_N, self->attitude_->GetQuaternion_i2b(), self->structure_->GetKinematicsParameters().GetMass_kg());
  }
//= s2e::dynamics::Dynamics::AddAcceleration_i_m_s2
void Dynamics_AddAcceleration_i_m_s2(Dynamics* self, math::Vector<3> acceleration_i_m_s2) { self->orbit_->AddAcceleration_i_m_s2(acceleration_i_m_s2); }
//= s2e::dynamics::Dynamics::GetAttitude
attitude::Attitude& Dynamics_GetAttitude(Dynamics* self) { return *self->attitude_; }
//= s2e::dynamics::Dynamics::GetOrbit
orbit::Orbit& Dynamics_GetOrbit(Dynamics* self) { return *self->orbit_; }
//= s2e::dynamics::Dynamics::GetTemperature
thermal::Temperature& Dynamics_GetTemperature(Dynamics* self) { return *self->temperature_; }
//= s2e::dynamics::Dynamics::SetAttitude
attitude::Attitude& Dynamics_SetAttitude(Dynamics* self) { return *self->attitude_; }
}

// ---------------------------------------------------------------- dynamics/orbit/encke_orbit_propagation.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::EnckeOrbitPropagation::EnckeOrbitPropagation
void EnckeOrbitPropagation_Ctor(EnckeOrbitPropagation* self, const environment::CelestialInformation* celestial_information, const double gravity_constant_m3_s2, const double propagation_step_s, const double current_time_jd, const math::Vector<3> position_i_m, const math::Vector<3> velocity_i_m_s, const double error_tolerance) {
  Orbit_Ctor(self, celestial_information);
  OrdinaryDifferentialEquation_Ctor(self, propagation_step_s);
  const_cast<double&>(self->gravity_constant_m3_s2_) = gravity_constant_m3_s2;
  const_cast<double&>(self->error_tolerance_) = error_tolerance;
  self->propagation_step_s_ = propagation_step_s;

  self->propagation_time_s_ = 0.0;
  self->spacecraft_acceleration_i_m_s2_.FillUp(0.0);
  self->Initialize(current_time_jd, position_i_m, velocity_i_m_s);
}
//= s2e::dynamics::orbit::EnckeOrbitPropagation::Propagate
void EnckeOrbitPropagation_Propagate(EnckeOrbitPropagation* self, const double end_time_s, const double current_time_jd) {
  if (!self->is_calc_enabled_) return;

  // Rectification
  double norm_sat_position_m = self->spacecraft_position_i_m_.CalcNorm();
  double norm_difference_position_m = self->difference_position_i_m_.CalcNorm();
  if (norm_difference_position_m / norm_sat_position_m > self->error_tolerance_) {
    self->Initialize(current_time_jd - (end_time_s - self->propagation_time_s_) / (24.0 * 60.0 * 60.0), self->spacecraft_position_i_m_, self->spacecraft_velocity_i_m_s_);
  }

  // Update reference orbit
  self->reference_kepler_orbit.CalcOrbit(current_time_jd);
  self->reference_position_i_m_ = self->reference_kepler_orbit.GetPosition_i_m();
  self->reference_velocity_i_m_s_ = self->reference_kepler_orbit.GetVelocity_i_m_s();

  // Propagate difference orbit
  self->SetStepWidth(self->propagation_step_s_);  // Re-set propagation Δt
  while (end_time_s - self->propagation_time_s_ - self->propagation_step_s_ > 1.0e-6) {
    self->Update();  // Propagation methods of the OrdinaryDifferentialEquation class
    self->propagation_time_s_ += self->propagation_step_s_;
  }
  self->SetStepWidth(end_time_s - self->propagation_time_s_);  // Adjust the last propagation Δt
  self->Update();
  self->propagation_time_s_ = end_time_s;

  self->difference_position_i_m_[0] = self->GetState()[0];
  self->difference_position_i_m_[1] = self->GetState()[1];
  self->difference_position_i_m_[2] = self->GetState()[2];
  self->difference_velocity_i_m_s_[0] = self->GetState()[3];
  self->difference_velocity_i_m_s_[1] = self->GetState()[4];
  self->difference_velocity_i_m_s_[2] = self->GetState()[5];

  self->UpdateSatOrbit();
}
//= s2e::dynamics::orbit::EnckeOrbitPropagation::DerivativeFunction
void EnckeOrbitPropagation_DerivativeFunction(EnckeOrbitPropagation* self, double t, const math::Vector<6>& state, math::Vector<6>& rhs) {
  UNUSED(t);
  math::Vector<3> difference_position_i_m_m, difference_acc_i_m_s2;
  for (int i = 0; i < 3; i++) {
    difference_position_i_m_m[i] = state[i];
  }

  double q_func = self->CalcQFunction(difference_position_i_m_m);
  double r_m = self->reference_position_i_m_.CalcNorm();
  double r_m3 = pow(r_m, 3.0);

  difference_acc_i_m_s2 =
      -(self->gravity_constant_m3_s2_ / r_m3) * (q_func * self->spacecraft_position_i_m_ + difference_position_i_m_m) + self->spacecraft_acceleration_i_m_s2_;

  rhs[0] = state[3];
  rhs[1] = state[4];
  rhs[2] = state[5];
  rhs[3] = difference_acc_i_m_s2[0];
  rhs[4] = difference_acc_i_m_s2[1];
  rhs[5] = difference_acc_i_m_s2[2];
}
//= s2e::dynamics::orbit::EnckeOrbitPropagation::Initialize
void EnckeOrbitPropagation_Initialize(EnckeOrbitPropagation* self, double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {

  // reference orbit
  self->reference_position_i_m_ = reference_position_i_m;
  self->reference_velocity_i_m_s_ = reference_velocity_i_m_s;
  s2e::orbit::OrbitalElements oe_ref(self->gravity_constant_m3_s2_, current_time_jd, reference_position_i_m, reference_velocity_i_m_s);
  self->reference_kepler_orbit = s2e::orbit::KeplerOrbit(self->gravity_constant_m3_s2_, oe_ref);

  // difference orbit
  self->difference_position_i_m_.FillUp(0.0);
  self->difference_velocity_i_m_s_.FillUp(0.0);

  math::Vector<6> zero(0.0f);
  self->Setup(0.0, zero);

  self->UpdateSatOrbit();
}
//= s2e::dynamics::orbit::EnckeOrbitPropagation::UpdateSatOrbit
void EnckeOrbitPropagation_UpdateSatOrbit(EnckeOrbitPropagation* self) {
  self->spacecraft_position_i_m_ = self->reference_position_i_m_ + self->difference_position_i_m_;
  self->spacecraft_velocity_i_m_s_ = self->reference_velocity_i_m_s_ + self->difference_velocity_i_m_s_;

  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
//= s2e::dynamics::orbit::EnckeOrbitPropagation::CalcQFunction
double EnckeOrbitPropagation_CalcQFunction(EnckeOrbitPropagation* self, math::Vector<3> difference_position_i_m) {
  double r2;
  r2 = InnerProduct(self->spacecraft_position_i_m_, self->spacecraft_position_i_m_);

  math::Vector<3> dr_2r;
  dr_2r = difference_position_i_m - 2.0 * self->spacecraft_position_i_m_;

  double q = InnerProduct(difference_position_i_m, dr_2r) / r2;

  double q_func = q * (q * q + 3.0 * q + 3.0) / (pow(1.0 + q, 1.5) + 1.0);

  return q_func;
}
}

// ---------------------------------------------------------------- dynamics/orbit/initialize_orbit.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::InitOrbit leaves=s2e::dynamics::orbit::Rk4OrbitPropagation::Rk4OrbitPropagation,s2e::dynamics::orbit::Sgp4OrbitPropagation::Sgp4OrbitPropagation,s2e::dynamics::orbit::RelativeOrbit::RelativeOrbit,s2e::dynamics::orbit::KeplerOrbitPropagation::KeplerOrbitPropagation,s2e::dynamics::orbit::EnckeOrbitPropagation::EnckeOrbitPropagation,s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation,s2e::dynamics::orbit::InitializePosVel,s2e::orbit::KeplerOrbit::KeplerOrbit,s2e::orbit::OrbitalElements::OrbitalElements
Orbit* _InitOrbit(const environment::CelestialInformation* celestial_information, std::string initialize_file, double step_width_s, double current_time_jd, double gravity_constant_m3_s2, std::string section, simulation::RelativeInformation* relative_information) {
  auto conf = setting_file_reader::IniAccess(initialize_file);
  const char* section_ = section.c_str();
  Orbit* orbit;

  // Initialize mode
  OrbitInitializeMode initialize_mode = SetOrbitInitializeMode(conf.ReadString(section_, "initialize_mode"));

  // Propagate mode
  std::string propagate_mode = conf.ReadString(section_, "propagate_mode");

  if (propagate_mode == "RK4") {
    // initialize RK4 orbit propagator
    math::Vector<3> position_i_m;
    math::Vector<3> velocity_i_m_s;
    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
    for (size_t i = 0; i < 3; i++) {
      position_i_m[i] = pos_vel[i];
      velocity_i_m_s[i] = pos_vel[i + 3];
    }
    orbit = new Rk4OrbitPropagation(celestial_information, gravity_constant_m3_s2, step_width_s, position_i_m, velocity_i_m_s);
  } else if (propagate_mode == "SGP4") {
    // Initialize SGP4 orbit propagator
    int wgs_setting = conf.ReadInt(section_, "wgs_setting");
    char tle1[80], tle2[80];
    conf.ReadChar(section_, "tle1", 80, tle1);
    conf.ReadChar(section_, "tle2", 80, tle2);

    orbit = new Sgp4OrbitPropagation(celestial_information, tle1, tle2, wgs_setting, current_time_jd);
  } else if (propagate_mode == "RELATIVE") {
    // initialize orbit for relative dynamics of formation flying
    RelativeOrbit::RelativeOrbit::RelativeOrbitUpdateMethod update_method =
        (RelativeOrbit::RelativeOrbitUpdateMethod)(conf.ReadInt(section_, "relative_orbit_update_method"));
    s2e::orbit::RelativeOrbitModel relative_dynamics_model_type =
        (s2e::orbit::RelativeOrbitModel)(conf.ReadInt(section_, "relative_dynamics_model_type"));
    s2e::orbit::StmModel stm_model_type = (s2e::orbit::StmModel)(conf.ReadInt(section_, "stm_model_type"));

    math::Vector<3> init_relative_position_lvlh;
    conf.ReadVector<3>(section_, "initial_relative_position_lvlh_m", init_relative_position_lvlh);
    math::Vector<3> init_relative_velocity_lvlh;
    conf.ReadVector<3>(section_, "initial_relative_velocity_lvlh_m_s", init_relative_velocity_lvlh);

    // There is a possibility that the orbit of the reference sat is not initialized when RelativeOrbit initialization is called To ensure that
    // the orbit of the reference sat is initialized, create temporary initial orbit of the reference sat
    int reference_spacecraft_id = conf.ReadInt(section_, "reference_satellite_id");

    orbit = new RelativeOrbit(celestial_information, gravity_constant_m3_s2, step_width_s, reference_spacecraft_id, init_relative_position_lvlh,
                              init_relative_velocity_lvlh, update_method, relative_dynamics_model_type, stm_model_type, relative_information);
  } else if (propagate_mode == "KEPLER") {
    // initialize orbit for Kepler propagation
    s2e::orbit::OrbitalElements oe;
    // TODO: init_mode_kepler should be removed in the next major update
    if (initialize_mode == OrbitInitializeMode::kInertialPositionAndVelocity) {
      // initialize with position and velocity
      math::Vector<3> init_pos_m;
      conf.ReadVector<3>(section_, "initial_position_i_m", init_pos_m);
      math::Vector<3> init_vel_m_s;
      conf.ReadVector<3>(section_, "initial_velocity_i_m_s", init_vel_m_s);
      oe = s2e::orbit::OrbitalElements(gravity_constant_m3_s2, current_time_jd, init_pos_m, init_vel_m_s);
    } else {
      // initialize with orbital elements
      double semi_major_axis_m = conf.ReadDouble(section_, "semi_major_axis_m");
      double eccentricity = conf.ReadDouble(section_, "eccentricity");
      double inclination_rad = conf.ReadDouble(section_, "inclination_rad");
      double raan_rad = conf.ReadDouble(section_, "raan_rad");
      double arg_perigee_rad = conf.ReadDouble(section_, "argument_of_perigee_rad");
      double epoch_jday = conf.ReadDouble(section_, "epoch_jday");
      oe = s2e::orbit::OrbitalElements(epoch_jday, semi_major_axis_m, eccentricity, inclination_rad, raan_rad, arg_perigee_rad);
    }
    s2e::orbit::KeplerOrbit kepler_orbit(gravity_constant_m3_s2, oe);
    orbit = new KeplerOrbitPropagation(celestial_information, current_time_jd, kepler_orbit);
  } else if (propagate_mode == "ENCKE") {
    // initialize orbit for Encke's method
    math::Vector<3> position_i_m;
    math::Vector<3> velocity_i_m_s;
    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
    for (size_t i = 0; i < 3; i++) {
      position_i_m[i] = pos_vel[i];
      velocity_i_m_s[i] = pos_vel[i + 3];
    }

    double error_tolerance = conf.ReadDouble(section_, "error_tolerance");
    orbit = new EnckeOrbitPropagation(celestial_information, gravity_constant_m3_s2, step_width_s, current_time_jd, position_i_m, velocity_i_m_s,
                                      error_tolerance);
  } else if (propagate_mode == "TIME_SERIES_FILE") {
    // initialize orbit for propagation with time series file
    const std::string time_series_file_path = conf.ReadString(section_, "time_series_file_path");
    const int number_of_interpolation = conf.ReadInt(section_, "number_of_interpolation");
    const int interpolation_method = conf.ReadInt(section_, "interpolation_method");
    const double orbital_period_correction_s = conf.ReadDouble(section_, "orbital_period_correction_s");

    orbit = new TimeSeriesFileOrbitPropagation(celestial_information, time_series_file_path, number_of_interpolation, interpolation_method,
                                               orbital_period_correction_s, current_time_jd);

  } else {
    std::cerr << "ERROR: orbit propagation mode: " << propagate_mode << " is not defined!" << std::endl;
    std::cerr << "The orbit mode is automatically set as RK4" << std::endl;

    math::Vector<3> position_i_m;
    math::Vector<3> velocity_i_m_s;
    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
    for (size_t i = 0; i < 3; i++) {
      position_i_m[i] = pos_vel[i];
      velocity_i_m_s[i] = pos_vel[i + 3];
    }
    orbit = new Rk4OrbitPropagation(celestial_information, gravity_constant_m3_s2, step_width_s, position_i_m, velocity_i_m_s);
  }

  orbit->SetIsCalcEnabled(conf.ReadEnable(section_, "calculation"));
  orbit->is_log_enabled_ = conf.ReadEnable(section_, "logging");
  return orbit;
}
//= s2e::dynamics::orbit::InitializePosVel
math::Vector<6> _InitializePosVel(std::string initialize_file, double current_time_jd, double gravity_constant_m3_s2, std::string section) {
  auto conf = setting_file_reader::IniAccess(initialize_file);
  const char* section_ = section.c_str();
  math::Vector<3> position_i_m;
  math::Vector<3> velocity_i_m_s;
  math::Vector<6> pos_vel;

  OrbitInitializeMode initialize_mode = SetOrbitInitializeMode(conf.ReadString(section_, "initialize_mode"));
  if (initialize_mode == OrbitInitializeMode::kOrbitalElements) {
    double semi_major_axis_m = conf.ReadDouble(section_, "semi_major_axis_m");
    double eccentricity = conf.ReadDouble(section_, "eccentricity");
    double inclination_rad = conf.ReadDouble(section_, "inclination_rad");
    double raan_rad = conf.ReadDouble(section_, "raan_rad");
    double arg_perigee_rad = conf.ReadDouble(section_, "argument_of_perigee_rad");
    double epoch_jday = conf.ReadDouble(section_, "epoch_jday");
    s2e::orbit::OrbitalElements oe(epoch_jday, semi_major_axis_m, eccentricity, inclination_rad, raan_rad, arg_perigee_rad);
    s2e::orbit::KeplerOrbit kepler_orbit(gravity_constant_m3_s2, oe);

    kepler_orbit.CalcOrbit(current_time_jd);
    position_i_m = kepler_orbit.GetPosition_i_m();
    velocity_i_m_s = kepler_orbit.GetVelocity_i_m_s();
  } else {
    conf.ReadVector<3>(section_, "initial_position_i_m", position_i_m);
    conf.ReadVector<3>(section_, "initial_velocity_i_m_s", velocity_i_m_s);
  }

  for (size_t i = 0; i < 3; i++) {
    pos_vel[i] = position_i_m[i];
    pos_vel[i + 3] = velocity_i_m_s[i];
  }

  return pos_vel;
}
}

// ---------------------------------------------------------------- dynamics/orbit/kepler_orbit_propagation.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::KeplerOrbitPropagation::KeplerOrbitPropagation
void KeplerOrbitPropagation_Ctor(KeplerOrbitPropagation* self, const environment::CelestialInformation* celestial_information, const double current_time_jd, s2e::orbit::KeplerOrbit kepler_orbit) {
  Orbit_Ctor(self, celestial_information);
  new (self) s2e::orbit::KeplerOrbit(kepler_orbit);

  self->UpdateState(current_time_jd);
}
//= s2e::dynamics::orbit::KeplerOrbitPropagation::Propagate
void KeplerOrbitPropagation_Propagate(KeplerOrbitPropagation* self, const double end_time_s, const double current_time_jd) {
  UNUSED(end_time_s);

  if (!self->is_calc_enabled_) return;

  self->UpdateState(current_time_jd);
}
//= s2e::dynamics::orbit::KeplerOrbitPropagation::UpdateState
void KeplerOrbitPropagation_UpdateState(KeplerOrbitPropagation* self, const double current_time_jd) {
  self->CalcOrbit(current_time_jd);
  self->spacecraft_position_i_m_ = self->position_i_m_;
  self->spacecraft_velocity_i_m_s_ = self->velocity_i_m_s_;
  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
}

// ---------------------------------------------------------------- dynamics/orbit/orbit.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh
math::Quaternion Orbit_CalcQuaternion_i2lvlh(Orbit* self) {
  math::Vector<3> lvlh_x = self->spacecraft_position_i_m_;  // x-axis in LVLH frame is position vector direction from geocenter to satellite
  math::Vector<3> lvlh_ex = lvlh_x.CalcNormalizedVector();
  math::Vector<3> lvlh_z =
      OuterProduct(self->spacecraft_position_i_m_, self->spacecraft_velocity_i_m_s_);  // z-axis in LVLH frame is angular momentum vector direction of orbit
  math::Vector<3> lvlh_ez = lvlh_z.CalcNormalizedVector();
  math::Vector<3> lvlh_y = OuterProduct(lvlh_z, lvlh_x);
  math::Vector<3> lvlh_ey = lvlh_y.CalcNormalizedVector();

  math::Matrix<3, 3> dcm_i2lvlh;
  dcm_i2lvlh[0][0] = lvlh_ex[0];
  dcm_i2lvlh[0][1] = lvlh_ex[1];
  dcm_i2lvlh[0][2] = lvlh_ex[2];
  dcm_i2lvlh[1][0] = lvlh_ey[0];
  dcm_i2lvlh[1][1] = lvlh_ey[1];
  dcm_i2lvlh[1][2] = lvlh_ey[2];
  dcm_i2lvlh[2][0] = lvlh_ez[0];
  dcm_i2lvlh[2][1] = lvlh_ez[1];
  dcm_i2lvlh[2][2] = lvlh_ez[2];

  math::Quaternion q_i2lvlh = math::Quaternion::ConvertFromDcm(dcm_i2lvlh);
  return q_i2lvlh.Normalize();
}
//= s2e::dynamics::orbit::Orbit::TransformEciToEcef
void Orbit_TransformEciToEcef(Orbit* self) {
  math::Matrix<3, 3> dcm_i_to_xcxf = self->celestial_information_->GetEarthRotation().GetDcmJ2000ToEcef();
  self->spacecraft_position_ecef_m_ = dcm_i_to_xcxf * self->spacecraft_position_i_m_;

  // convert velocity vector in ECI to the vector in ECEF
  math::Vector<3> earth_angular_velocity_i_rad_s{0.0};
  earth_angular_velocity_i_rad_s[2] = environment::earth_mean_angular_velocity_rad_s;
  math::Vector<3> we_cross_r = OuterProduct(earth_angular_velocity_i_rad_s, self->spacecraft_position_i_m_);
  math::Vector<3> velocity_we_cross_r = self->spacecraft_velocity_i_m_s_ - we_cross_r;
  self->spacecraft_velocity_ecef_m_s_ = dcm_i_to_xcxf * velocity_we_cross_r;
}
//= s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic
void Orbit_TransformEcefToGeodetic(Orbit* self) {
  self->spacecraft_geodetic_position_.UpdateFromEcef(self->spacecraft_position_ecef_m_);
  // Check altitude
  if (self->spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
    std::cout << "[Error Orbit]: The spacecraft altitude is smaller than zero." << std::endl;
    std::cout << "               The orbit or disturbance setting may have something wrong." << std::endl;
    std::exit(1);
  }
}
//= s2e::dynamics::orbit::SetOrbitInitializeMode
OrbitInitializeMode _SetOrbitInitializeMode(const std::string initialize_mode) {
  if (initialize_mode == "DEFAULT") {
    return OrbitInitializeMode::kDefault;
  } else if (initialize_mode == "POSITION_VELOCITY_I") {
    return OrbitInitializeMode::kInertialPositionAndVelocity;
  } else if (initialize_mode == "ORBITAL_ELEMENTS") {
    return OrbitInitializeMode::kOrbitalElements;
  } else {
    std::cerr << "WARNINGS: orbit initialize mode is not defined!" << std::endl;
    std::cerr << "The orbit is automatically initialized as default mode" << std::endl;
    return OrbitInitializeMode::kDefault;
  }
}
}

// ---------------------------------------------------------------- dynamics/orbit/orbit.hpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::Orbit::Orbit
void Ctor_Orbit_Ctor(Orbit* self, const environment::CelestialInformation* celestial_information) {
  self->celestial_information_ = celestial_information;
  self->is_calc_enabled_ = false;
}
//= s2e::dynamics::orbit::Orbit::UpdateByAttitude
void Orbit_UpdateByAttitude(Orbit* self, const math::Quaternion quaternion_i2b) {
    self->spacecraft_velocity_b_m_s_ = quaternion_i2b.FrameConversion(self->spacecraft_velocity_i_m_s_);
  }
//= s2e::dynamics::orbit::Orbit::GetIsCalcEnabled
bool Orbit_GetIsCalcEnabled(Orbit* self) { return self->is_calc_enabled_; }
//= s2e::dynamics::orbit::Orbit::GetPropagateMode
OrbitPropagateMode Orbit_GetPropagateMode(Orbit* self) { return self->propagate_mode_; }
//= s2e::dynamics::orbit::Orbit::GetPosition_i_m
math::Vector<3> Orbit_GetPosition_i_m(Orbit* self) { return self->spacecraft_position_i_m_; }
//= s2e::dynamics::orbit::Orbit::GetPosition_ecef_m
math::Vector<3> Orbit_GetPosition_ecef_m(Orbit* self) { return self->spacecraft_position_ecef_m_; }
//= s2e::dynamics::orbit::Orbit::GetVelocity_i_m_s
math::Vector<3> Orbit_GetVelocity_i_m_s(Orbit* self) { return self->spacecraft_velocity_i_m_s_; }
//= s2e::dynamics::orbit::Orbit::GetVelocity_b_m_s
math::Vector<3> Orbit_GetVelocity_b_m_s(Orbit* self) { return self->spacecraft_velocity_b_m_s_; }
//= s2e::dynamics::orbit::Orbit::GetVelocity_ecef_m_s
math::Vector<3> Orbit_GetVelocity_ecef_m_s(Orbit* self) { return self->spacecraft_velocity_ecef_m_s_; }
//= s2e::dynamics::orbit::Orbit::GetGeodeticPosition
s2e::geodesy::GeodeticPosition Orbit_GetGeodeticPosition(Orbit* self) { return self->spacecraft_geodetic_position_; }
//= s2e::dynamics::orbit::Orbit::GetLatitude_rad
double Orbit_GetLatitude_rad(Orbit* self) { return self->spacecraft_geodetic_position_.GetLatitude_rad(); }
//= s2e::dynamics::orbit::Orbit::GetLongitude_rad
double Orbit_GetLongitude_rad(Orbit* self) { return self->spacecraft_geodetic_position_.GetLongitude_rad(); }
//= s2e::dynamics::orbit::Orbit::GetAltitude_m
double Orbit_GetAltitude_m(Orbit* self) { return self->spacecraft_geodetic_position_.GetAltitude_m(); }
//= s2e::dynamics::orbit::Orbit::GetLatLonAlt
math::Vector<3> Orbit_GetLatLonAlt(Orbit* self) {
    math::Vector<3> vec;
    vec(0) = self->spacecraft_geodetic_position_.GetLatitude_rad();
    vec(1) = self->spacecraft_geodetic_position_.GetLongitude_rad();
    vec(2) = self->spacecraft_geodetic_position_.GetAltitude_m();
    return vec;
  }
//= s2e::dynamics::orbit::Orbit::SetIsCalcEnabled
void Orbit_SetIsCalcEnabled(Orbit* self, const bool is_calc_enabled) { self->is_calc_enabled_ = is_calc_enabled; }
//= s2e::dynamics::orbit::Orbit::SetAcceleration_i_m_s2
void Orbit_SetAcceleration_i_m_s2(Orbit* self, const math::Vector<3> acceleration_i_m_s2) { self->spacecraft_acceleration_i_m_s2_ = acceleration_i_m_s2; }
//= s2e::dynamics::orbit::Orbit::AddForce_i_N
void Orbit_AddForce_i_N(Orbit* self, const math::Vector<3> force_i_N, double spacecraft_mass_kg) {
    math::Vector<3> acceleration_i_m_s2 = force_i_N;
    acceleration_i_m_s2 /= spacecraft_mass_kg;  // FIXME
    self->spacecraft_acceleration_i_m_s2_ += acceleration_i_m_s2;
  }
//= s2e::dynamics::orbit::Orbit::AddAcceleration_i_m_s2
void Orbit_AddAcceleration_i_m_s2(Orbit* self, const math::Vector<3> acceleration_i_m_s2) { self->spacecraft_acceleration_i_m_s2_ += acceleration_i_m_s2; }
//= s2e::dynamics::orbit::Orbit::AddForce_b_N
void Orbit_AddForce_b_N(Orbit* self, const math::Vector<3> force_b_N, const math::Quaternion quaternion_i2b, const double spacecraft_mass_kg) {
    auto force_i = quaternion_i2b.InverseFrameConversion(force_b_N);
    self->AddForce_i_N(force_i, spacecraft_mass_kg);
  }
}

// ---------------------------------------------------------------- dynamics/orbit/relative_orbit.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::RelativeOrbit::RelativeOrbit
void RelativeOrbit_Ctor(RelativeOrbit* self, const environment::CelestialInformation* celestial_information, double gravity_constant_m3_s2, double time_step_s, int reference_spacecraft_id, math::Vector<3> relative_position_lvlh_m, math::Vector<3> relative_velocity_lvlh_m_s, RelativeOrbit::RelativeOrbitUpdateMethod update_method, s2e::orbit::RelativeOrbitModel relative_dynamics_model_type, s2e::orbit::StmModel stm_model_type, simulation::RelativeInformation* relative_information) {
  Orbit_Ctor(self, celestial_information);
  OrdinaryDifferentialEquation_Ctor(self, time_step_s);
  self->gravity_constant_m3_s2_ = gravity_constant_m3_s2;
  self->reference_spacecraft_id_ = reference_spacecraft_id;
  self->update_method_ = update_method;
  self->relative_dynamics_model_type_ = relative_dynamics_model_type;
  self->stm_model_type_ = stm_model_type;
  self->relative_information_ = relative_information;

  self->propagate_mode_ = OrbitPropagateMode::kRelativeOrbit;

  self->propagation_time_s_ = 0.0;
  self->propagation_step_s_ = time_step_s;

  self->InitializeState(relative_position_lvlh_m, relative_velocity_lvlh_m_s, gravity_constant_m3_s2);
}
//= s2e::dynamics::orbit::RelativeOrbit::InitializeState
void RelativeOrbit_InitializeState(RelativeOrbit* self, math::Vector<3> relative_position_lvlh_m, math::Vector<3> relative_velocity_lvlh_m_s, double gravity_constant_m3_s2, double initial_time_s) {
  self->relative_position_lvlh_m_ = relative_position_lvlh_m;
  self->relative_velocity_lvlh_m_s_ = relative_velocity_lvlh_m_s;

  // Disturbance acceleration are not considered in relative orbit propagation
  self->spacecraft_acceleration_i_m_s2_ *= 0.0;

  math::Vector<3> reference_sat_position_i = self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit().GetPosition_i_m();
  math::Vector<3> reference_sat_velocity_i = self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit().GetVelocity_i_m_s();
  math::Quaternion q_i2lvlh = self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
  math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
  self->spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(self->relative_position_lvlh_m_) + reference_sat_position_i;
  self->spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(self->relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;

  self->initial_state_[0] = relative_position_lvlh_m[0];
  self->initial_state_[1] = relative_position_lvlh_m[1];
  self->initial_state_[2] = relative_position_lvlh_m[2];
  self->initial_state_[3] = relative_velocity_lvlh_m_s[0];
  self->initial_state_[4] = relative_velocity_lvlh_m_s[1];
  self->initial_state_[5] = relative_velocity_lvlh_m_s[2];

  if (self->update_method_ == RelativeOrbit::kRk4) {
    self->Setup(initial_time_s, self->initial_state_);
    self->CalculateSystemMatrix(self->relative_dynamics_model_type_, &(self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit()),
                          gravity_constant_m3_s2);
  } else  // update_method_ == STM
  {
    self->CalculateStm(self->stm_model_type_, &(self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit()), gravity_constant_m3_s2,
                 0.0);
  }

  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
//= s2e::dynamics::orbit::RelativeOrbit::CalculateSystemMatrix
void RelativeOrbit_CalculateSystemMatrix(RelativeOrbit* self, s2e::orbit::RelativeOrbitModel relative_dynamics_model_type, const Orbit* reference_sat_orbit, double gravity_constant_m3_s2) {
  switch (relative_dynamics_model_type) {
    case s2e::orbit::RelativeOrbitModel::kHill: {
      double reference_sat_orbit_radius = reference_sat_orbit->GetPosition_i_m().CalcNorm();
      self->system_matrix_ = s2e::orbit::CalcHillSystemMatrix(reference_sat_orbit_radius, gravity_constant_m3_s2);
    }
    default: {
      // NOT REACHED
      break;
    }
  }
}
//= s2e::dynamics::orbit::RelativeOrbit::CalculateStm
void RelativeOrbit_CalculateStm(RelativeOrbit* self, s2e::orbit::StmModel stm_model_type, const Orbit* reference_sat_orbit, double gravity_constant_m3_s2, double elapsed_sec) {
  switch (stm_model_type) {
    case s2e::orbit::StmModel::kHcw: {
      double reference_sat_orbit_radius = reference_sat_orbit->GetPosition_i_m().CalcNorm();
      self->stm_ = s2e::orbit::CalcHcwStm(reference_sat_orbit_radius, gravity_constant_m3_s2, elapsed_sec);
    }
    default: {
      // NOT REACHED
      break;
    }
  }
}
//= s2e::dynamics::orbit::RelativeOrbit::Propagate
void RelativeOrbit_Propagate(RelativeOrbit* self, const double end_time_s, const double current_time_jd) {
  UNUSED(current_time_jd);

  if (!self->is_calc_enabled_) return;

  self->spacecraft_acceleration_i_m_s2_ *= 0.0;  // Disturbance acceleration are not considered in relative orbit propagation

  if (self->update_method_ == RelativeOrbit::kRk4) {
    self->PropagateRk4(end_time_s);
  } else  // update_method_ == STM
  {
    self->PropagateStm(end_time_s);
  }

  math::Vector<3> reference_sat_position_i = self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit().GetPosition_i_m();
  math::Vector<3> reference_sat_velocity_i = self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit().GetVelocity_i_m_s();
  math::Quaternion q_i2lvlh = self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
  math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();

  self->spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(self->relative_position_lvlh_m_) + reference_sat_position_i;
  self->spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(self->relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
//= s2e::dynamics::orbit::RelativeOrbit::PropagateRk4
void RelativeOrbit_PropagateRk4(RelativeOrbit* self, double elapsed_sec) {
  self->SetStepWidth(self->propagation_step_s_);  // Re-set propagation dt
  while (elapsed_sec - self->propagation_time_s_ - self->propagation_step_s_ > 1.0e-6) {
    self->Update();  // Propagation methods of the OrdinaryDifferentialEquation class
    self->propagation_time_s_ += self->propagation_step_s_;
  }
  self->SetStepWidth(elapsed_sec - self->propagation_time_s_);  // Adjust the last propagation dt
  self->Update();
  self->propagation_time_s_ = elapsed_sec;

  self->relative_position_lvlh_m_[0] = self->GetState()[0];
  self->relative_position_lvlh_m_[1] = self->GetState()[1];
  self->relative_position_lvlh_m_[2] = self->GetState()[2];
  self->relative_velocity_lvlh_m_s_[0] = self->GetState()[3];
  self->relative_velocity_lvlh_m_s_[1] = self->GetState()[4];
  self->relative_velocity_lvlh_m_s_[2] = self->GetState()[5];
}
//= s2e::dynamics::orbit::RelativeOrbit::PropagateStm
void RelativeOrbit_PropagateStm(RelativeOrbit* self, double elapsed_sec) {
  math::Vector<6> current_state;
  self->CalculateStm(self->stm_model_type_, &(self->relative_information_->GetReferenceSatDynamics(self->reference_spacecraft_id_)->GetOrbit()), self->gravity_constant_m3_s2_,
               elapsed_sec);
  current_state = self->stm_ * self->initial_state_;

  self->relative_position_lvlh_m_[0] = current_state[0];
  self->relative_position_lvlh_m_[1] = current_state[1];
  self->relative_position_lvlh_m_[2] = current_state[2];
  self->relative_velocity_lvlh_m_s_[0] = current_state[3];
  self->relative_velocity_lvlh_m_s_[1] = current_state[4];
  self->relative_velocity_lvlh_m_s_[2] = current_state[5];
}
//= s2e::dynamics::orbit::RelativeOrbit::DerivativeFunction
void RelativeOrbit_DerivativeFunction(RelativeOrbit* self, double t, const math::Vector<6>& state, math::Vector<6>& rhs) {
  rhs = self->system_matrix_ * state;
  (void)t;
}
}

// ---------------------------------------------------------------- dynamics/orbit/rk4_orbit_propagation.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::Rk4OrbitPropagation::Rk4OrbitPropagation
void Rk4OrbitPropagation_Ctor(Rk4OrbitPropagation* self, const environment::CelestialInformation* celestial_information, double gravity_constant_m3_s2, double time_step_s, math::Vector<3> position_i_m, math::Vector<3> velocity_i_m_s, double initial_time_s) {
  Orbit_Ctor(self, celestial_information);
  OrdinaryDifferentialEquation_Ctor(self, time_step_s);
  self->gravity_constant_m3_s2_ = gravity_constant_m3_s2;

  self->propagate_mode_ = OrbitPropagateMode::kRk4;

  self->propagation_time_s_ = 0.0;
  self->propagation_step_s_ = time_step_s;
  self->spacecraft_acceleration_i_m_s2_ *= 0;

  self->Initialize(position_i_m, velocity_i_m_s, initial_time_s);
}
//= s2e::dynamics::orbit::Rk4OrbitPropagation::DerivativeFunction
void Rk4OrbitPropagation_DerivativeFunction(Rk4OrbitPropagation* self, double t, const math::Vector<6>& state, math::Vector<6>& rhs) {
  double x = state[0], y = state[1], z = state[2];
  double vx = state[3], vy = state[4], vz = state[5];

  double r3 = pow(x * x + y * y + z * z, 1.5);

  rhs[0] = vx;
  rhs[1] = vy;
  rhs[2] = vz;
  rhs[3] = self->spacecraft_acceleration_i_m_s2_[0] - self->gravity_constant_m3_s2_ / r3 * x;
  rhs[4] = self->spacecraft_acceleration_i_m_s2_[1] - self->gravity_constant_m3_s2_ / r3 * y;
  rhs[5] = self->spacecraft_acceleration_i_m_s2_[2] - self->gravity_constant_m3_s2_ / r3 * z;

  (void)t;
}
//= s2e::dynamics::orbit::Rk4OrbitPropagation::Initialize
void Rk4OrbitPropagation_Initialize(Rk4OrbitPropagation* self, math::Vector<3> position_i_m, math::Vector<3> velocity_i_m_s, double initial_time_s) {
  // state vector [x,y,z,vx,vy,vz]
  math::Vector<6> init_state;
  init_state[0] = position_i_m[0];
  init_state[1] = position_i_m[1];
  init_state[2] = position_i_m[2];
  init_state[3] = velocity_i_m_s[0];
  init_state[4] = velocity_i_m_s[1];
  init_state[5] = velocity_i_m_s[2];
  self->Setup(initial_time_s, init_state);

  // initialize
  self->spacecraft_acceleration_i_m_s2_ *= 0;
  self->spacecraft_position_i_m_[0] = init_state[0];
  self->spacecraft_position_i_m_[1] = init_state[1];
  self->spacecraft_position_i_m_[2] = init_state[2];
  self->spacecraft_velocity_i_m_s_[0] = init_state[3];
  self->spacecraft_velocity_i_m_s_[1] = init_state[4];
  self->spacecraft_velocity_i_m_s_[2] = init_state[5];

  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
//= s2e::dynamics::orbit::Rk4OrbitPropagation::Propagate
void Rk4OrbitPropagation_Propagate(Rk4OrbitPropagation* self, const double end_time_s, const double current_time_jd) {
  UNUSED(current_time_jd);

  if (!self->is_calc_enabled_) return;

  self->SetStepWidth(self->propagation_step_s_);  // Re-set propagation Δt
  while (end_time_s - self->propagation_time_s_ - self->propagation_step_s_ > 1.0e-6) {
    self->Update();  // Propagation methods of the OrdinaryDifferentialEquation class
    self->propagation_time_s_ += self->propagation_step_s_;
  }
  self->SetStepWidth(end_time_s - self->propagation_time_s_);  // Adjust the last propagation Δt
  self->Update();
  self->propagation_time_s_ = end_time_s;

  self->spacecraft_position_i_m_[0] = self->GetState()[0];
  self->spacecraft_position_i_m_[1] = self->GetState()[1];
  self->spacecraft_position_i_m_[2] = self->GetState()[2];
  self->spacecraft_velocity_i_m_s_[0] = self->GetState()[3];
  self->spacecraft_velocity_i_m_s_[1] = self->GetState()[4];
  self->spacecraft_velocity_i_m_s_[2] = self->GetState()[5];

  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
}

// ---------------------------------------------------------------- dynamics/orbit/sgp4_orbit_propagation.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::Sgp4OrbitPropagation::Sgp4OrbitPropagation
void Sgp4OrbitPropagation_Ctor(Sgp4OrbitPropagation* self, const environment::CelestialInformation* celestial_information, char* tle1, char* tle2, const int wgs_setting, const double current_time_jd) {
  Orbit_Ctor(self, celestial_information);

  self->propagate_mode_ = OrbitPropagateMode::kSgp4;

  if (wgs_setting == 0) {
    self->gravity_constant_setting_ = wgs72old;
  } else if (wgs_setting == 1) {
    self->gravity_constant_setting_ = wgs72;
  } else if (wgs_setting == 2) {
    self->gravity_constant_setting_ = wgs84;
  }

  char type_run = 'c', type_input = 0;
  double start_mfe, stop_mfe, delta_min;

  twoline2rv(tle1, tle2, type_run, type_input, self->gravity_constant_setting_, start_mfe, stop_mfe, delta_min, self->sgp4_data_);

  // Epoch check
  double epoch_difference_jday = (current_time_jd - self->sgp4_data_.jdsatepoch);
  if (epoch_difference_jday < 0.0) {
    std::cout << "[WARNING: SGP4] The TLE epoch is newer than the simulation start time." << std::endl;
  } else if (epoch_difference_jday > 150.0) {
    std::cout << "[WARNING: SGP4] The TLE epoch is 150 days older than the simulation start time." << std::endl;
    std::cout << "                The orbit calculation result may have significant errors." << std::endl;
  }

  self->spacecraft_acceleration_i_m_s2_ *= 0.0;

  // To calculate initial position and velocity
  self->is_calc_enabled_ = true;
  self->Propagate(0.0, current_time_jd);
  self->is_calc_enabled_ = false;
}
//= s2e::dynamics::orbit::Sgp4OrbitPropagation::Propagate
void Sgp4OrbitPropagation_Propagate(Sgp4OrbitPropagation* self, const double end_time_s, const double current_time_jd) {
  UNUSED(end_time_s);

  if (!self->is_calc_enabled_) return;
  double elapse_time_min = (current_time_jd - self->sgp4_data_.jdsatepoch) * (24.0 * 60.0);

  double position_i_km[3];
  double velocity_i_km_s[3];

  sgp4(self->gravity_constant_setting_, self->sgp4_data_, elapse_time_min, position_i_km, velocity_i_km_s);

  // Error in SGP4
  if (self->sgp4_data_.error > 0) printf("# *** error: time:= %f *** code = %3d\n", self->sgp4_data_.t, self->sgp4_data_.error);

  for (int i = 0; i < 3; ++i) {
    self->spacecraft_position_i_m_[i] = position_i_km[i] * 1000.0;
    self->spacecraft_velocity_i_m_s_[i] = velocity_i_km_s[i] * 1000.0;
  }

  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
}

// ---------------------------------------------------------------- dynamics/orbit/time_series_file_orbit_propagation.cpp
namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation
void TimeSeriesFileOrbitPropagation_Ctor(TimeSeriesFileOrbitPropagation* self, const environment::CelestialInformation* celestial_information, std::string time_series_file_path, int number_of_interpolation, int interpolation_method, double orbital_period_correction_s, const double current_time_jd) {
  Orbit_Ctor(self, celestial_information);
  self->is_time_range_warning_displayed_ = false;
  self->is_interpolation_method_error_displayed_ = false;
  self->number_of_interpolation_ = number_of_interpolation;
  self->interpolation_method_ = interpolation_method;
  self->orbital_period_correction_s_ = orbital_period_correction_s;
  self->reference_interpolation_id_ = 0;

  self->propagate_mode_ = OrbitPropagateMode::kTimeSeriesFile;

  // Read time series file
  setting_file_reader::IniAccess time_series_file(time_series_file_path);
  time_series_file.ReadCsvDoubleWithHeader(self->time_series_data_, 7, 1, 0);

  // Get general info
  size_t nearest_ephemeris_time_id = self->SearchNearestEphemerisTimeId(current_time_jd);

  const size_t half_interpolation_number = number_of_interpolation / 2;
  if (nearest_ephemeris_time_id >= half_interpolation_number) {
    self->reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
  }

  self->reference_time_ = self->CalcEphemerisTimeData(self->reference_interpolation_id_);

  // Initialize orbit
  self->orbit_position_i_m_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation));
  self->orbit_velocity_i_m_s_.assign(1, s2e::orbit::InterpolationOrbit(number_of_interpolation));

  // Initialize interpolation
  for (int i = 0; i < number_of_interpolation; i++) {
    self->UpdateInterpolationInformation();
  }
  self->spacecraft_acceleration_i_m_s2_ *= 0.0;

  // To calculate initial position and velocity
  self->is_calc_enabled_ = true;
  self->Propagate(0.0, current_time_jd);
  self->is_calc_enabled_ = false;
}
//= s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId
size_t TimeSeriesFileOrbitPropagation_SearchNearestEphemerisTimeId(TimeSeriesFileOrbitPropagation* self, const double current_time_jd) {
  size_t nearest_ephemeris_time_id = 0;

  // Get start ephemeris time
  double start_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;

  // Get the nearest ephemeris time ID
  for (size_t i = 0; i < self->time_series_data_.size(); i++) {
    if (start_ephemris_time < self->time_series_data_[i][0]) {
      nearest_ephemeris_time_id = i;
      break;
    }
  }
  return nearest_ephemeris_time_id;
}
//= s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData
double TimeSeriesFileOrbitPropagation_CalcEphemerisTimeData(TimeSeriesFileOrbitPropagation* self, const size_t ephemeris_time_id) {
  if (ephemeris_time_id >= self->time_series_data_.size()) {
    return 0;
  }
  return self->time_series_data_[ephemeris_time_id][0];
}
//= s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation::Propagate
void TimeSeriesFileOrbitPropagation_Propagate(TimeSeriesFileOrbitPropagation* self, const double end_time_s, const double current_time_jd) {
  UNUSED(end_time_s);

  if (!self->is_calc_enabled_) return;

  // Check interpolation update
  double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
  double diff_s = current_ephemris_time - self->reference_time_;
  const size_t medium_id = static_cast<std::size_t>(std::round(self->number_of_interpolation_ / 2.0));
  while (diff_s > self->orbit_position_i_m_[0].GetTimeList()[medium_id] && self->reference_interpolation_id_ < self->time_series_data_.size()) {
    self->UpdateInterpolationInformation();
  }
  if (diff_s < 0.0) {
    if (!self->is_time_range_warning_displayed_) {
      std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
      self->is_time_range_warning_displayed_ = true;
    }
    for (size_t i = 0; i < 3; i++) {
      self->spacecraft_position_i_m_[i] = self->time_series_data_[0][i + 1];
      self->spacecraft_velocity_i_m_s_[i] = self->time_series_data_[0][i + 4];
    }
  } else if (diff_s > 1e6 || self->reference_interpolation_id_ >= self->time_series_data_.size()) {
    if (!self->is_time_range_warning_displayed_) {
      std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
      self->is_time_range_warning_displayed_ = true;
    }
    for (size_t i = 0; i < 3; i++) {
      self->spacecraft_position_i_m_[i] = self->time_series_data_[self->time_series_data_.size() - 1][i + 1];
      self->spacecraft_velocity_i_m_s_[i] = self->time_series_data_[self->time_series_data_.size() - 1][i + 4];
    }
  } else {
    if (self->interpolation_method_ == 0) {
      self->spacecraft_position_i_m_ = self->orbit_position_i_m_[0].CalcPositionWithPolynomial(diff_s);
      self->spacecraft_velocity_i_m_s_ = self->orbit_velocity_i_m_s_[0].CalcPositionWithPolynomial(diff_s);
    } else if (self->interpolation_method_ == 1) {
      self->spacecraft_position_i_m_ = self->orbit_position_i_m_[0].CalcPositionWithTrigonometric(diff_s, math::tau / self->orbital_period_correction_s_);
      self->spacecraft_velocity_i_m_s_ = self->orbit_velocity_i_m_s_[0].CalcPositionWithTrigonometric(diff_s, math::tau / self->orbital_period_correction_s_);
    } else {
      if (!self->is_interpolation_method_error_displayed_) {
        std::cerr << "[ERROR] Time series file orbit propagation: Interpolation method " << self->interpolation_method_ << " is not defined!" << std::endl;
        std::cerr << "The orbit mode is automatically set as Polynomial" << std::endl;
        self->is_interpolation_method_error_displayed_ = true;
      }
      self->spacecraft_position_i_m_ = self->orbit_position_i_m_[0].CalcPositionWithPolynomial(diff_s);
      self->spacecraft_velocity_i_m_s_ = self->orbit_velocity_i_m_s_[0].CalcPositionWithPolynomial(diff_s);
    }
  }
  self->TransformEciToEcef();
  self->TransformEcefToGeodetic();
}
//= s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation::UpdateInterpolationInformation
bool TimeSeriesFileOrbitPropagation_UpdateInterpolationInformation(TimeSeriesFileOrbitPropagation* self) {
  double time_series_data_time_s = self->CalcEphemerisTimeData(self->reference_interpolation_id_);
  double time_diff_s = time_series_data_time_s - self->reference_time_;
  if (self->reference_interpolation_id_ >= self->time_series_data_.size()) {
    for (size_t i = 0; i < 3; i++) {
      self->spacecraft_position_i_m_[i] = self->time_series_data_[self->time_series_data_.size() - 1][i + 1];
      self->spacecraft_velocity_i_m_s_[i] = self->time_series_data_[self->time_series_data_.size() - 1][i + 4];
    }
  } else {
    for (size_t i = 0; i < 3; i++) {
      self->spacecraft_position_i_m_[i] = self->time_series_data_[self->reference_interpolation_id_][i + 1];
      self->spacecraft_velocity_i_m_s_[i] = self->time_series_data_[self->reference_interpolation_id_][i + 4];
    }
  }

  self->orbit_position_i_m_[0].PushAndPopData(time_diff_s, self->spacecraft_position_i_m_);
  self->orbit_velocity_i_m_s_[0].PushAndPopData(time_diff_s, self->spacecraft_velocity_i_m_s_);

  self->reference_interpolation_id_++;

  return true;
}
}
