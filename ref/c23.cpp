// Reference specification for C23 (parsed, never compiled to code or run).
//! leaves=s2e::randomization::GlobalRandomization::MakeSeed,s2e::randomization::NormalRand::operator double,s2e::randomization::MinimalStandardLcgWithShuffle::operator double
#include "base.hpp"
#include <cfloat>
#include <fstream>
#include <iostream>
#include <random>
#include "components/ideal/force_generator.hpp"
#include "components/ideal/torque_generator.hpp"
#include "components/real/aocs/magnetorquer.hpp"
#include "components/real/aocs/mtq_magnetometer_interference.hpp"
#include "components/real/aocs/reaction_wheel.hpp"
#include "components/real/aocs/reaction_wheel_jitter.hpp"
#include "components/real/aocs/reaction_wheel_ode.hpp"
#include "components/real/propulsion/simple_thruster.hpp"
#include "logger/logger.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/matrix_vector.hpp"
#include "math_physics/math/quaternion.hpp"
#include "math_physics/math/vector.hpp"
#include "math_physics/randomization/global_randomization.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
// ---------------------------------------------------------------- components/ideal/force_generator.cpp
namespace s2e::components::ref {
//= s2e::components::ForceGenerator::ForceGenerator
void ForceGenerator_Ctor(ForceGenerator* self, const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N, const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics) {
  Component_Ctor(self, prescaler, clock_generator);
  self->ordered_force_b_N_ = math::Vector<3>{0.0};
  self->generated_force_b_N_ = math::Vector<3>{0.0};
  self->generated_force_i_N_ = math::Vector<3>{0.0};
  self->generated_force_rtn_N_ = math::Vector<3>{0.0};
  self->magnitude_noise_ = randomization::NormalRand(0.0, magnitude_error_standard_deviation_N);
  self->direction_error_standard_deviation_rad_ = direction_error_standard_deviation_rad;
  self->dynamics_ = dynamics;

  self->direction_noise_.SetParameters(0.0, 1.0);
}
//= s2e::components::ForceGenerator::MainRoutine
void ForceGenerator_MainRoutine(ForceGenerator* self, const int time_count) {
  UNUSED(time_count);

  self->generated_force_b_N_ = self->ordered_force_b_N_;

  // Add noise
  double norm_ordered_force = self->ordered_force_b_N_.CalcNorm();
  if (norm_ordered_force > 0.0 + DBL_EPSILON) {
    // Add noise only when the force is generated
    math::Vector<3> true_direction = self->generated_force_b_N_.CalcNormalizedVector();
    math::Quaternion error_quaternion = self->GenerateDirectionNoiseQuaternion(true_direction, self->direction_error_standard_deviation_rad_);
    math::Vector<3> converted_direction = error_quaternion.FrameConversion(true_direction);
    double force_norm_with_error = norm_ordered_force + self->magnitude_noise_;
    self->generated_force_b_N_ = force_norm_with_error * converted_direction;
  }

  // Convert frame
  math::Quaternion q_i2b = self->dynamics_->GetAttitude().GetQuaternion_i2b();
  math::Quaternion q_i2rtn = self->dynamics_->GetOrbit().CalcQuaternion_i2lvlh();
  self->generated_force_i_N_ = q_i2b.InverseFrameConversion(self->generated_force_b_N_);
  self->generated_force_rtn_N_ = q_i2rtn.FrameConversion(self->generated_force_i_N_);
}
//= s2e::components::ForceGenerator::PowerOffRoutine
void ForceGenerator_PowerOffRoutine(ForceGenerator* self) {
  self->generated_force_b_N_ *= 0.0;
  self->generated_force_i_N_ *= 0.0;
  self->generated_force_rtn_N_ *= 0.0;
}
//= s2e::components::ForceGenerator::SetForce_i_N
void ForceGenerator_SetForce_i_N(ForceGenerator* self, const math::Vector<3> force_i_N) {
  math::Quaternion q_i2b = self->dynamics_->GetAttitude().GetQuaternion_i2b();
  self->ordered_force_b_N_ = q_i2b.FrameConversion(force_i_N);
}
//= s2e::components::ForceGenerator::SetForce_rtn_N
void ForceGenerator_SetForce_rtn_N(ForceGenerator* self, const math::Vector<3> force_rtn_N) {
  math::Quaternion q_i2b = self->dynamics_->GetAttitude().GetQuaternion_i2b();
  math::Quaternion q_i2rtn = self->dynamics_->GetOrbit().CalcQuaternion_i2lvlh();

  math::Vector<3> force_i_N = q_i2rtn.InverseFrameConversion(force_rtn_N);
  self->ordered_force_b_N_ = q_i2b.FrameConversion(force_i_N);
}
//= s2e::components::ForceGenerator::GenerateDirectionNoiseQuaternion
math::Quaternion ForceGenerator_GenerateDirectionNoiseQuaternion(ForceGenerator* self, math::Vector<3> true_direction, const double error_standard_deviation_rad) {
  math::Vector<3> random_direction;
  random_direction[0] = self->direction_noise_;
  random_direction[1] = self->direction_noise_;
  random_direction[2] = self->direction_noise_;
  random_direction = random_direction.CalcNormalizedVector();

  math::Vector<3> rotation_axis;
  rotation_axis = OuterProduct(true_direction, random_direction);
  double norm_rotation_axis = rotation_axis.CalcNorm();
  if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
    // No rotation error if the randomized direction is parallel to the true direction
    rotation_axis = true_direction;
  } else {
    rotation_axis /= norm_rotation_axis;
  }

  double error_angle_rad = self->direction_noise_ * error_standard_deviation_rad;
  math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
  return error_quaternion;
}
//= s2e::components::InitializeForceGenerator
ForceGenerator _InitializeForceGenerator(environment::ClockGenerator* clock_generator, const std::string file_name, const dynamics::Dynamics* dynamics) {
  // General
  setting_file_reader::IniAccess ini_file(file_name);

  // CompoBase
  int prescaler = ini_file.ReadInt("COMPONENT_BASE", "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // ForceGenerator
  char section[30] = "FORCE_GENERATOR";
  double force_magnitude_standard_deviation_N = ini_file.ReadDouble(section, "force_magnitude_standard_deviation_N");
  double force_direction_standard_deviation_deg = ini_file.ReadDouble(section, "force_direction_standard_deviation_deg");
  double force_direction_standard_deviation_rad = math::deg_to_rad * force_direction_standard_deviation_deg;
  ForceGenerator force_generator(prescaler, clock_generator, force_magnitude_standard_deviation_N, force_direction_standard_deviation_rad, dynamics);

  return force_generator;
}
}

// ---------------------------------------------------------------- components/ideal/force_generator.hpp
namespace s2e::components::ref {
//= s2e::components::ForceGenerator::GetGeneratedForce_b_N
math::Vector<3> ForceGenerator_GetGeneratedForce_b_N(ForceGenerator* self) { return self->generated_force_b_N_; }
//= s2e::components::ForceGenerator::GetGeneratedForce_i_N
math::Vector<3> ForceGenerator_GetGeneratedForce_i_N(ForceGenerator* self) { return self->generated_force_i_N_; }
//= s2e::components::ForceGenerator::GetGeneratedForce_rtn_N
math::Vector<3> ForceGenerator_GetGeneratedForce_rtn_N(ForceGenerator* self) { return self->generated_force_rtn_N_; }
//= s2e::components::ForceGenerator::SetForce_b_N
void ForceGenerator_SetForce_b_N(ForceGenerator* self, const math::Vector<3> force_b_N) { self->ordered_force_b_N_ = force_b_N; }
}

// ---------------------------------------------------------------- components/ideal/torque_generator.cpp
namespace s2e::components::ref {
//= s2e::components::TorqueGenerator::TorqueGenerator
void TorqueGenerator_Ctor(TorqueGenerator* self, const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics) {
  Component_Ctor(self, prescaler, clock_generator);
  self->ordered_torque_b_Nm_ = math::Vector<3>{0.0};
  self->generated_torque_b_Nm_ = math::Vector<3>{0.0};
  self->magnitude_noise_ = randomization::NormalRand(0.0, magnitude_error_standard_deviation_Nm);
  self->direction_error_standard_deviation_rad_ = direction_error_standard_deviation_rad;
  self->dynamics_ = dynamics;

  self->direction_noise_.SetParameters(0.0, 1.0);
}
//= s2e::components::TorqueGenerator::MainRoutine
void TorqueGenerator_MainRoutine(TorqueGenerator* self, const int time_count) {
  UNUSED(time_count);

  self->generated_torque_b_Nm_ = self->ordered_torque_b_Nm_;

  // Add noise
  double norm_ordered_torque = self->ordered_torque_b_Nm_.CalcNorm();
  if (norm_ordered_torque > 0.0 + DBL_EPSILON) {
    // Add noise only when the torque is generated
    math::Vector<3> true_direction = self->generated_torque_b_Nm_.CalcNormalizedVector();
    math::Quaternion error_quaternion = self->GenerateDirectionNoiseQuaternion(true_direction, self->direction_error_standard_deviation_rad_);
    math::Vector<3> converted_direction = error_quaternion.FrameConversion(true_direction);
    double torque_norm_with_error = norm_ordered_torque + self->magnitude_noise_;
    self->generated_torque_b_Nm_ = torque_norm_with_error * converted_direction;
  }
}
//= s2e::components::TorqueGenerator::PowerOffRoutine
void TorqueGenerator_PowerOffRoutine(TorqueGenerator* self) { self->generated_torque_b_Nm_ *= 0.0; }
//= s2e::components::TorqueGenerator::GenerateDirectionNoiseQuaternion
math::Quaternion TorqueGenerator_GenerateDirectionNoiseQuaternion(TorqueGenerator* self, math::Vector<3> true_direction, const double error_standard_deviation_rad) {
  math::Vector<3> random_direction;
  random_direction[0] = self->direction_noise_;
  random_direction[1] = self->direction_noise_;
  random_direction[2] = self->direction_noise_;
  random_direction = random_direction.CalcNormalizedVector();

  math::Vector<3> rotation_axis;
  rotation_axis = OuterProduct(true_direction, random_direction);
  double norm_rotation_axis = rotation_axis.CalcNorm();
  if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
    // No rotation error if the randomized direction is parallel to the true direction
    rotation_axis = true_direction;
  } else {
    rotation_axis /= norm_rotation_axis;
  }

  double error_angle_rad = self->direction_noise_ * error_standard_deviation_rad;
  math::Quaternion error_quaternion(rotation_axis, error_angle_rad);
  return error_quaternion;
}
//= s2e::components::InitializeTorqueGenerator
TorqueGenerator _InitializeTorqueGenerator(environment::ClockGenerator* clock_generator, const std::string file_name, const dynamics::Dynamics* dynamics) {
  // General
  setting_file_reader::IniAccess ini_file(file_name);

  // CompoBase
  int prescaler = ini_file.ReadInt("COMPONENT_BASE", "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // TorqueGenerator
  char section[30] = "TORQUE_GENERATOR";
  double torque_magnitude_standard_deviation_Nm = ini_file.ReadDouble(section, "torque_magnitude_standard_deviation_Nm");
  double torque_direction_standard_deviation_deg = ini_file.ReadDouble(section, "torque_direction_standard_deviation_deg");
  double torque_direction_standard_deviation_rad = math::deg_to_rad * torque_direction_standard_deviation_deg;
  TorqueGenerator torque_generator(prescaler, clock_generator, torque_magnitude_standard_deviation_Nm, torque_direction_standard_deviation_rad,
                                   dynamics);

  return torque_generator;
}
}

// ---------------------------------------------------------------- components/ideal/torque_generator.hpp
namespace s2e::components::ref {
//= s2e::components::TorqueGenerator::GetGeneratedTorque_b_Nm
math::Vector<3> TorqueGenerator_GetGeneratedTorque_b_Nm(TorqueGenerator* self) { return self->generated_torque_b_Nm_; }
//= s2e::components::TorqueGenerator::SetTorque_b_Nm
void TorqueGenerator_SetTorque_b_Nm(TorqueGenerator* self, const math::Vector<3> torque_b_Nm) { self->ordered_torque_b_Nm_ = torque_b_Nm; }
}

// ---------------------------------------------------------------- components/real/aocs/magnetorquer.cpp
namespace s2e::components::ref {
//= s2e::components::Magnetorquer::Magnetorquer(constint,s2e::environment::ClockGenerator*,constint,consts2e::math::Quaternion&,consts2e::math::Matrix<3,3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,double,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::environment::GeomagneticField*)
void Magnetorquer_Ctor(Magnetorquer* self, const int prescaler, environment::ClockGenerator* clock_generator, const int component_id, const math::Quaternion& quaternion_b2c, const math::Matrix<kMtqDimension, kMtqDimension>& scale_factor, const math::Vector<kMtqDimension>& max_magnetic_moment_c_Am2, const math::Vector<kMtqDimension>& min_magnetic_moment_c_Am2, const math::Vector<kMtqDimension>& bias_noise_c_Am2_, double random_walk_step_width_s, const math::Vector<kMtqDimension>& random_walk_standard_deviation_c_Am2, const math::Vector<kMtqDimension>& random_walk_limit_c_Am2, const math::Vector<kMtqDimension>& normal_random_standard_deviation_c_Am2, const environment::GeomagneticField* geomagnetic_field) {
  Component_Ctor(self, prescaler, clock_generator);
  MUT(self->component_id_) = component_id;
  self->torque_b_Nm_ = math::Vector<kMtqDimension>{0.0};
  self->output_magnetic_moment_c_Am2_ = math::Vector<kMtqDimension>{0.0};
  self->commanded_magnetic_moment_c_Am2_ = math::Vector<kMtqDimension>{0.0};
  self->output_magnetic_moment_b_Am2_ = math::Vector<kMtqDimension>{0.0};
  self->quaternion_b2c_ = quaternion_b2c;
  self->quaternion_c2b_ = self->quaternion_b2c_.Conjugate();
  self->scale_factor_ = scale_factor;
  self->max_magnetic_moment_c_Am2_ = max_magnetic_moment_c_Am2;
  self->min_magnetic_moment_c_Am2_ = min_magnetic_moment_c_Am2;
  self->bias_noise_c_Am2_ = bias_noise_c_Am2_;
  self->random_walk_c_Am2_ = randomization::RandomWalk<kMtqDimension>(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2);
  self->geomagnetic_field_ = geomagnetic_field;

  for (size_t i = 0; i < kMtqDimension; i++) {
    self->random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
  }
}
//= s2e::components::Magnetorquer::Magnetorquer(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constint,consts2e::math::Quaternion&,consts2e::math::Matrix<3,3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,double,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::environment::GeomagneticField*)
void Magnetorquer_Ctor2(Magnetorquer* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const int component_id, const math::Quaternion& quaternion_b2c, const math::Matrix<kMtqDimension, kMtqDimension>& scale_factor, const math::Vector<kMtqDimension>& max_magnetic_moment_c_Am2, const math::Vector<kMtqDimension>& min_magnetic_moment_c_Am2, const math::Vector<kMtqDimension>& bias_noise_c_Am2_, double random_walk_step_width_s, const math::Vector<kMtqDimension>& random_walk_standard_deviation_c_Am2, const math::Vector<kMtqDimension>& random_walk_limit_c_Am2, const math::Vector<kMtqDimension>& normal_random_standard_deviation_c_Am2, const environment::GeomagneticField* geomagnetic_field) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  MUT(self->component_id_) = component_id;
  self->torque_b_Nm_ = math::Vector<kMtqDimension>{0.0};
  self->output_magnetic_moment_c_Am2_ = math::Vector<kMtqDimension>{0.0};
  self->commanded_magnetic_moment_c_Am2_ = math::Vector<kMtqDimension>{0.0};
  self->output_magnetic_moment_b_Am2_ = math::Vector<kMtqDimension>{0.0};
  self->quaternion_b2c_ = quaternion_b2c;
  self->quaternion_c2b_ = self->quaternion_b2c_.Conjugate();
  self->scale_factor_ = scale_factor;
  self->max_magnetic_moment_c_Am2_ = max_magnetic_moment_c_Am2;
  self->min_magnetic_moment_c_Am2_ = min_magnetic_moment_c_Am2;
  self->bias_noise_c_Am2_ = bias_noise_c_Am2_;
  self->random_walk_c_Am2_ = randomization::RandomWalk<kMtqDimension>(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2);
  self->geomagnetic_field_ = geomagnetic_field;

  for (size_t i = 0; i < kMtqDimension; i++) {
    self->random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
  }
}
//= s2e::components::Magnetorquer::MainRoutine
void Magnetorquer_MainRoutine(Magnetorquer* self, const int time_count) {
  UNUSED(time_count);

  self->CalcOutputTorque();
}
//= s2e::components::Magnetorquer::PowerOffRoutine
void Magnetorquer_PowerOffRoutine(Magnetorquer* self) {
  self->torque_b_Nm_ *= 0.0;
  self->commanded_magnetic_moment_c_Am2_ *= 0.0;
  self->output_magnetic_moment_c_Am2_ *= 0.0;
  self->output_magnetic_moment_b_Am2_ *= 0.0;
}
//= s2e::components::Magnetorquer::CalcOutputTorque
math::Vector<kMtqDimension> Magnetorquer_CalcOutputTorque(Magnetorquer* self) {
  for (size_t i = 0; i < kMtqDimension; ++i) {
    // Limit Check
    self->output_magnetic_moment_c_Am2_[i] = self->commanded_magnetic_moment_c_Am2_[i];
    if (self->output_magnetic_moment_c_Am2_[i] > self->max_magnetic_moment_c_Am2_[i]) {
      self->output_magnetic_moment_c_Am2_[i] = self->max_magnetic_moment_c_Am2_[i];
    } else if (self->output_magnetic_moment_c_Am2_[i] < self->min_magnetic_moment_c_Am2_[i]) {
      self->output_magnetic_moment_c_Am2_[i] = self->min_magnetic_moment_c_Am2_[i];
    }
    // Add noise
    self->output_magnetic_moment_c_Am2_[i] += self->bias_noise_c_Am2_[i];
    self->output_magnetic_moment_c_Am2_[i] += self->random_walk_c_Am2_[i];
    self->output_magnetic_moment_c_Am2_[i] += self->random_noise_c_Am2_[i];
  }
  self->output_magnetic_moment_c_Am2_ = self->scale_factor_ * self->output_magnetic_moment_c_Am2_;

  // Frame conversion component to body
  self->output_magnetic_moment_b_Am2_ = self->quaternion_c2b_.FrameConversion(self->output_magnetic_moment_c_Am2_);
  // Calc magnetic torque [Nm]
  self->torque_b_Nm_ = OuterProduct(self->output_magnetic_moment_b_Am2_, self->kConvertNanoT2T * self->geomagnetic_field_->GetGeomagneticField_b_nT());
  // Update Random Walk
  ++self->random_walk_c_Am2_;

  return self->torque_b_Nm_;
}
//= s2e::components::InitMagnetorquer(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::environment::GeomagneticField*)
Magnetorquer _InitMagnetorquer(environment::ClockGenerator* clock_generator, int actuator_id, const std::string file_name, double component_step_time_s, const environment::GeomagneticField* geomagnetic_field) {
  setting_file_reader::IniAccess magtorquer_conf(file_name);
  const char* sensor_name = "MAGNETORQUER_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(actuator_id));
  const char* MTSection = section_name.c_str();

  int prescaler = magtorquer_conf.ReadInt(MTSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Vector<kMtqDimension * kMtqDimension> sf_vec;
  magtorquer_conf.ReadVector(MTSection, "scale_factor_c", sf_vec);
  math::Matrix<kMtqDimension, kMtqDimension> scale_factor;
  for (size_t i = 0; i < kMtqDimension; i++) {
    for (size_t j = 0; j < kMtqDimension; j++) {
      scale_factor[i][j] = sf_vec[i * kMtqDimension + j];
    }
  }

  math::Quaternion quaternion_b2c;
  magtorquer_conf.ReadQuaternion(MTSection, "quaternion_b2c", quaternion_b2c);

  math::Vector<kMtqDimension> max_magnetic_moment_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "max_output_magnetic_moment_c_Am2", max_magnetic_moment_c_Am2);

  math::Vector<kMtqDimension> min_magnetic_moment_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "min_output_magnetic_moment_c_Am2", min_magnetic_moment_c_Am2);

  math::Vector<kMtqDimension> bias_noise_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "constant_bias_noise_c_Am2", bias_noise_c_Am2);

  double random_walk_step_width_s = component_step_time_s * (double)prescaler;
  math::Vector<kMtqDimension> random_walk_standard_deviation_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "random_walk_standard_deviation_c_Am2", random_walk_standard_deviation_c_Am2);
  math::Vector<kMtqDimension> random_walk_limit_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "random_walk_limit_c_Am2", random_walk_limit_c_Am2);
  math::Vector<kMtqDimension> normal_random_standard_deviation_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "white_noise_standard_deviation_c_Am2", normal_random_standard_deviation_c_Am2);

  Magnetorquer magtorquer(prescaler, clock_generator, actuator_id, quaternion_b2c, scale_factor, max_magnetic_moment_c_Am2, min_magnetic_moment_c_Am2,
                          bias_noise_c_Am2, random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2,
                          normal_random_standard_deviation_c_Am2, geomagnetic_field);
  return magtorquer;
}
//= s2e::components::InitMagnetorquer(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::environment::GeomagneticField*)
Magnetorquer _InitMagnetorquer2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int actuator_id, const std::string file_name, double component_step_time_s, const environment::GeomagneticField* geomagnetic_field) {
  setting_file_reader::IniAccess magtorquer_conf(file_name);
  const char* sensor_name = "MAGNETORQUER_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(actuator_id));
  const char* MTSection = section_name.c_str();

  int prescaler = magtorquer_conf.ReadInt(MTSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Vector<kMtqDimension * kMtqDimension> sf_vec;
  magtorquer_conf.ReadVector(MTSection, "scale_factor_c", sf_vec);
  math::Matrix<kMtqDimension, kMtqDimension> scale_factor;
  for (size_t i = 0; i < kMtqDimension; i++) {
    for (size_t j = 0; j < kMtqDimension; j++) {
      scale_factor[i][j] = sf_vec[i * kMtqDimension + j];
    }
  }

  math::Quaternion quaternion_b2c;
  magtorquer_conf.ReadQuaternion(MTSection, "quaternion_b2c", quaternion_b2c);

  math::Vector<kMtqDimension> max_magnetic_moment_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "max_output_magnetic_moment_c_Am2", max_magnetic_moment_c_Am2);

  math::Vector<kMtqDimension> min_magnetic_moment_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "min_output_magnetic_moment_c_Am2", min_magnetic_moment_c_Am2);

  math::Vector<kMtqDimension> bias_noise_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "constant_bias_noise_c_Am2", bias_noise_c_Am2);

  double random_walk_step_width_s = component_step_time_s * (double)prescaler;
  math::Vector<kMtqDimension> random_walk_standard_deviation_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "random_walk_standard_deviation_c_Am2", random_walk_standard_deviation_c_Am2);
  math::Vector<kMtqDimension> random_walk_limit_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "random_walk_limit_c_Am2", random_walk_limit_c_Am2);
  math::Vector<kMtqDimension> normal_random_standard_deviation_c_Am2;
  magtorquer_conf.ReadVector(MTSection, "white_noise_standard_deviation_c_Am2", normal_random_standard_deviation_c_Am2);

  // PowerPort
  power_port->InitializeWithInitializeFile(file_name);

  Magnetorquer magtorquer(prescaler, clock_generator, power_port, actuator_id, quaternion_b2c, scale_factor, max_magnetic_moment_c_Am2,
                          min_magnetic_moment_c_Am2, bias_noise_c_Am2, random_walk_step_width_s, random_walk_standard_deviation_c_Am2,
                          random_walk_limit_c_Am2, normal_random_standard_deviation_c_Am2, geomagnetic_field);
  return magtorquer;
}
}

// ---------------------------------------------------------------- components/real/aocs/magnetorquer.hpp
namespace s2e::components::ref {
//= s2e::components::Magnetorquer::GetOutputTorque_b_Nm
math::Vector<kMtqDimension>& Magnetorquer_GetOutputTorque_b_Nm(Magnetorquer* self) { return self->torque_b_Nm_; }
//= s2e::components::Magnetorquer::SetOutputMagneticMoment_c_Am2
void Magnetorquer_SetOutputMagneticMoment_c_Am2(Magnetorquer* self, const math::Vector<kMtqDimension> mag_moment_c) { self->commanded_magnetic_moment_c_Am2_ = mag_moment_c; }
//= s2e::components::Magnetorquer::SetOutputMagneticMoment_b_Am2
math::Vector<kMtqDimension>& Magnetorquer_SetOutputMagneticMoment_b_Am2(Magnetorquer* self) { return self->output_magnetic_moment_b_Am2_; }
//= s2e::components::Magnetorquer::GetOutputMagneticMoment_c_Am2
math::Vector<kMtqDimension>& Magnetorquer_GetOutputMagneticMoment_c_Am2(Magnetorquer* self) { return self->output_magnetic_moment_c_Am2_; }
}

// ---------------------------------------------------------------- components/real/aocs/mtq_magnetometer_interference.cpp
namespace s2e::components::ref {
//= s2e::components::MtqMagnetometerInterference::MtqMagnetometerInterference skip=magnetometer_,magnetorquer_
void MtqMagnetometerInterference_Ctor(MtqMagnetometerInterference* self, const std::string file_name, Magnetometer& magnetometer, const Magnetorquer& magnetorquer, const size_t initialize_id) {
  self->previous_added_bias_c_nT_ = math::Vector<3>{0.0};

  // Read ini file
  setting_file_reader::IniAccess ini_file(file_name);
  std::string section = "MTQ_MAGNETOMETER_INTERFERENCE_" + std::to_string(static_cast<long long>(initialize_id));

  self->polynomial_degree_ = (size_t)ini_file.ReadInt(section.c_str(), "polynomial_degree");

  for (size_t degree = 1; degree <= self->polynomial_degree_; degree++) {
    const std::string key_name = "additional_bias_by_mtq_coefficients_" + std::to_string(static_cast<long long>(degree));
    math::Vector<9> additional_bias_by_mtq_coefficients_vec;
    math::Matrix<3, 3> additional_bias_by_mtq_coefficients;
    ini_file.ReadVector(section.c_str(), key_name.c_str(), additional_bias_by_mtq_coefficients_vec);
    for (size_t i = 0; i < 3; i++) {
      for (size_t j = 0; j < 3; j++) {
        additional_bias_by_mtq_coefficients[i][j] = additional_bias_by_mtq_coefficients_vec[i * 3 + j];
      }
    }
    self->additional_bias_by_mtq_coefficients_.push_back(additional_bias_by_mtq_coefficients);
  }
}
//= s2e::components::MtqMagnetometerInterference::UpdateInterference
void MtqMagnetometerInterference_UpdateInterference(MtqMagnetometerInterference* self) {
  // Subtract previous added bias to avoid double addition
  self->magnetometer_.AddConstantBiasNoise_c_nT(-1.0 * self->previous_added_bias_c_nT_);

  // Calculate bias
  math::Vector<3> additional_bias_c_nT{0.0};
  math::Vector<3> mtq_output_c_Am2 = self->magnetorquer_.GetOutputMagneticMoment_c_Am2();
  for (size_t degree = 1; degree <= self->polynomial_degree_; degree++) {
    math::Vector<3> hadamard_mtq;
    for (size_t axis = 0; axis < 3; axis++) {
      hadamard_mtq[axis] = pow(mtq_output_c_Am2[axis], degree);
    }
    additional_bias_c_nT = additional_bias_c_nT + self->additional_bias_by_mtq_coefficients_[degree - 1] * hadamard_mtq;
  }

  // Add bias
  self->magnetometer_.AddConstantBiasNoise_c_nT(additional_bias_c_nT);
  self->previous_added_bias_c_nT_ = additional_bias_c_nT;
}
}

// ---------------------------------------------------------------- components/real/aocs/reaction_wheel.cpp
namespace s2e::components::ref {
//= s2e::components::ReactionWheel::ReactionWheel(constint,s2e::environment::ClockGenerator*,constint,constdouble,constdouble,constdouble,constdouble,consts2e::math::Quaternion,consts2e::math::Vector<3,double>,constdouble,constdouble,conststd::vector<double,std::allocator<double>>,constdouble,constbool,constbool,constint,s2e::components::ReactionWheelJitter&,bool,constdouble)
void ReactionWheel_Ctor(ReactionWheel* self, const int prescaler, environment::ClockGenerator* clock_generator, const int component_id, const double step_width_s, const double rotor_inertia_kgm2, const double max_torque_Nm, const double max_velocity_rpm, const math::Quaternion quaternion_b2c, const math::Vector<3> position_b_m, const double dead_time_s, const double time_constant_s, const std::vector<double> friction_coefficients, const double stop_limit_angular_velocity_rad_s, const bool is_calc_jitter_enabled, const bool is_log_jitter_enabled, const int fast_prescaler, ReactionWheelJitter& rw_jitter, bool drive_flag, const double init_velocity_rad_s) {
  Component_Ctor(self, prescaler, clock_generator, fast_prescaler);
  MUT(self->component_id_) = component_id;
  MUT(self->rotor_inertia_kgm2_) = rotor_inertia_kgm2;
  MUT(self->max_torque_Nm_) = max_torque_Nm;
  MUT(self->max_velocity_rpm_) = max_velocity_rpm;
  MUT(self->quaternion_b2c_) = quaternion_b2c;
  MUT(self->position_b_m_) = position_b_m;
  MUT(self->step_width_s_) = step_width_s;
  MUT(self->dead_time_s_) = dead_time_s;
  new (&self->delayed_acceleration_rad_s2_) control_utilities::FirstOrderLag(step_width_s, time_constant_s);
  self->coasting_friction_coefficients_ = friction_coefficients;
  self->stop_limit_angular_velocity_rad_s_ = stop_limit_angular_velocity_rad_s;
  self->drive_flag_ = drive_flag;
  self->generated_angular_acceleration_rad_s2_ = 0.0;
  self->angular_velocity_rpm_ = 0.0;
  self->angular_velocity_rad_s_ = 0.0;
  self->output_torque_b_Nm_ = math::Vector<3>{0.0};
  self->angular_momentum_b_Nms_ = math::Vector<3>{0.0};
  self->velocity_limit_rpm_ = self->max_velocity_rpm_;
  self->ode_angular_velocity_ = ReactionWheelOde(self->step_width_s_, self->velocity_limit_rpm_ * math::rpm_to_rad_s, init_velocity_rad_s);
  self->rw_jitter_ = rw_jitter;
  self->is_calculated_jitter_ = is_calc_jitter_enabled;
  self->is_logged_jitter_ = is_log_jitter_enabled;

  self->Initialize();
}
//= s2e::components::ReactionWheel::ReactionWheel(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constint,constdouble,constdouble,constdouble,constdouble,consts2e::math::Quaternion,consts2e::math::Vector<3,double>,constdouble,constdouble,conststd::vector<double,std::allocator<double>>,constdouble,constbool,constbool,constint,s2e::components::ReactionWheelJitter&,constbool,constdouble)
void ReactionWheel_Ctor2(ReactionWheel* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const int component_id, const double step_width_s, const double rotor_inertia_kgm2, const double max_torque_Nm, const double max_velocity_rpm, const math::Quaternion quaternion_b2c, const math::Vector<3> position_b_m, const double dead_time_s, const double time_constant_s, const std::vector<double> friction_coefficients, const double stop_limit_angular_velocity_rad_s, const bool is_calc_jitter_enabled, const bool is_log_jitter_enabled, const int fast_prescaler, ReactionWheelJitter& rw_jitter, const bool drive_flag, const double init_velocity_rad_s) {
  Component_Ctor(self, prescaler, clock_generator, power_port, fast_prescaler);
  MUT(self->component_id_) = component_id;
  MUT(self->rotor_inertia_kgm2_) = rotor_inertia_kgm2;
  MUT(self->max_torque_Nm_) = max_torque_Nm;
  MUT(self->max_velocity_rpm_) = max_velocity_rpm;
  MUT(self->quaternion_b2c_) = quaternion_b2c;
  MUT(self->position_b_m_) = position_b_m;
  MUT(self->step_width_s_) = step_width_s;
  MUT(self->dead_time_s_) = dead_time_s;
  new (&self->delayed_acceleration_rad_s2_) control_utilities::FirstOrderLag(step_width_s, time_constant_s);
  self->coasting_friction_coefficients_ = friction_coefficients;
  self->stop_limit_angular_velocity_rad_s_ = stop_limit_angular_velocity_rad_s;
  self->drive_flag_ = drive_flag;
  self->generated_angular_acceleration_rad_s2_ = 0.0;
  self->angular_velocity_rpm_ = 0.0;
  self->angular_velocity_rad_s_ = 0.0;
  self->output_torque_b_Nm_ = math::Vector<3>{0.0};
  self->angular_momentum_b_Nms_ = math::Vector<3>{0.0};
  self->velocity_limit_rpm_ = self->max_velocity_rpm_;
  self->ode_angular_velocity_ = ReactionWheelOde(step_width_s, self->velocity_limit_rpm_ * math::rpm_to_rad_s, init_velocity_rad_s);
  self->rw_jitter_ = rw_jitter;
  self->is_calculated_jitter_ = is_calc_jitter_enabled;
  self->is_logged_jitter_ = is_log_jitter_enabled;

  self->Initialize();
}
//= s2e::components::ReactionWheel::Initialize
void ReactionWheel_Initialize(ReactionWheel* self) {
  self->rotation_axis_c_ = math::Vector<3>(0.0);
  self->rotation_axis_c_[2] = 1.0;
  self->rotation_axis_b_ = self->quaternion_b2c_.InverseFrameConversion(self->rotation_axis_c_);

  // Acceleration
  self->target_acceleration_rad_s2_ = 0.0;
  size_t len_buffer = (size_t)floor(self->dead_time_s_ / self->step_width_s_) + 1;
  self->acceleration_delay_buffer_.assign(len_buffer, 0.0);
  self->generated_angular_acceleration_rad_s2_ = 0.0;

  self->angular_velocity_rad_s_ = self->ode_angular_velocity_.GetAngularVelocity_rad_s();
  self->angular_velocity_rpm_ = self->angular_velocity_rad_s_ * math::rad_s_to_rpm;

  // Turn on RW jitter calculation
  if (self->is_calculated_jitter_) {
    self->SetNeedsFastUpdate(true);
  }
}
//= s2e::components::ReactionWheel::MainRoutine
void ReactionWheel_MainRoutine(ReactionWheel* self, const int time_count) {
  UNUSED(time_count);
  self->CalcTorque();
}
//= s2e::components::ReactionWheel::PowerOffRoutine
void ReactionWheel_PowerOffRoutine(ReactionWheel* self) {
  self->drive_flag_ = 0;
  self->generated_angular_acceleration_rad_s2_ = 0.0;
  self->output_torque_b_Nm_ *= 0.0;
}
//= s2e::components::ReactionWheel::FastUpdate
void ReactionWheel_FastUpdate(ReactionWheel* self) {
  if (self->is_calculated_jitter_) {
    self->rw_jitter_.CalcJitter(self->angular_velocity_rad_s_);
  }
}
//= s2e::components::ReactionWheel::CalcTorque
math::Vector<3> ReactionWheel_CalcTorque(ReactionWheel* self) {
  if (!self->drive_flag_)  // RW idle mode -> coasting mode
  {
    // Clear delay buffer
    std::fill(self->acceleration_delay_buffer_.begin(), self->acceleration_delay_buffer_.end(), 0.0);

    // Coasting torque
    double abs_angular_velocity_rad_s = abs(self->angular_velocity_rad_s_);
    double coasting_acceleration_rad_s2 = 0.0;
    for (size_t i = 0; i < self->coasting_friction_coefficients_.size(); i++) {
      coasting_acceleration_rad_s2 += self->coasting_friction_coefficients_[i] * pow(abs_angular_velocity_rad_s, i);
    }

    double rotation_direction = 1.0;
    if (abs_angular_velocity_rad_s < self->stop_limit_angular_velocity_rad_s_) {
      // Stop rotation
      rotation_direction = 0.0;
      math::Vector<1> zero_rad_s{0.0};
      self->ode_angular_velocity_.Setup(0.0, zero_rad_s);
    } else if (self->angular_velocity_rad_s_ > 0.0) {
      rotation_direction = -1.0;
    }

    double angular_acceleration_rad_s2 = coasting_acceleration_rad_s2 * rotation_direction;
    self->ode_angular_velocity_.SetAngularAcceleration_rad_s2(angular_acceleration_rad_s2);
  } else  // RW power on
  {
    // Set target velocity from target torque
    double angular_acceleration_rad_s2 = self->acceleration_delay_buffer_.front();
    angular_acceleration_rad_s2 = self->delayed_acceleration_rad_s2_.Update(angular_acceleration_rad_s2);
    self->ode_angular_velocity_.SetAngularAcceleration_rad_s2(angular_acceleration_rad_s2);

    // Update delay buffer
    self->acceleration_delay_buffer_.push_back(self->target_acceleration_rad_s2_);
    self->acceleration_delay_buffer_.erase(self->acceleration_delay_buffer_.begin());
  }

  ++self->ode_angular_velocity_;  // ODE propagate

  // Substitution
  double pre_angular_velocity_rad = self->angular_velocity_rad_s_;
  self->angular_velocity_rad_s_ = self->ode_angular_velocity_.GetAngularVelocity_rad_s();
  self->angular_velocity_rpm_ = self->angular_velocity_rad_s_ * math::rad_s_to_rpm;
  self->generated_angular_acceleration_rad_s2_ = (self->angular_velocity_rad_s_ - pre_angular_velocity_rad) / self->step_width_s_;

  // Calc output torque by RW
  self->output_torque_b_Nm_ = -1.0 * self->rotor_inertia_kgm2_ * self->generated_angular_acceleration_rad_s2_ * self->rotation_axis_b_;
  self->angular_momentum_b_Nms_ = self->rotor_inertia_kgm2_ * self->angular_velocity_rad_s_ * self->rotation_axis_b_;
  return self->output_torque_b_Nm_;
}
//= s2e::components::ReactionWheel::GetOutputTorque_b_Nm
math::Vector<3> ReactionWheel_GetOutputTorque_b_Nm(ReactionWheel* self) {
  if (self->is_calculated_jitter_) {
    // Add jitter_force_b_N_-derived torque and jitter_torque_b_Nm_ to output_torque_b
    return self->output_torque_b_Nm_ - math::OuterProduct(self->position_b_m_, self->rw_jitter_.GetJitterForce_b_N()) - self->rw_jitter_.GetJitterTorque_b_Nm();
  } else {
    return self->output_torque_b_Nm_;
  }
}
//= s2e::components::ReactionWheel::GetJitterForce_b_N
math::Vector<3> ReactionWheel_GetJitterForce_b_N(ReactionWheel* self) {
  if (self->is_calculated_jitter_) {
    return self->rw_jitter_.GetJitterForce_b_N();
  } else {
    math::Vector<3> zero{0.0};
    return zero;
  }
}
//= s2e::components::ReactionWheel::SetTargetTorque_rw_Nm
void ReactionWheel_SetTargetTorque_rw_Nm(ReactionWheel* self, const double torque_rw_Nm) {
  // Check Torque Limit
  double sign;
  torque_rw_Nm > 0 ? sign = 1.0 : sign = -1.0;
  if (abs(torque_rw_Nm) < self->max_torque_Nm_) {
    self->target_acceleration_rad_s2_ = torque_rw_Nm / self->rotor_inertia_kgm2_;
  } else {
    self->target_acceleration_rad_s2_ = sign * self->max_torque_Nm_ / self->rotor_inertia_kgm2_;
  }
}
//= s2e::components::ReactionWheel::SetTargetTorque_b_Nm
void ReactionWheel_SetTargetTorque_b_Nm(ReactionWheel* self, const double torque_b_Nm) { self->SetTargetTorque_rw_Nm(-1.0 * torque_b_Nm); }
//= s2e::components::ReactionWheel::SetVelocityLimit_rpm
void ReactionWheel_SetVelocityLimit_rpm(ReactionWheel* self, const double velocity_limit_rpm) {
  if (velocity_limit_rpm > self->max_velocity_rpm_) {
    self->velocity_limit_rpm_ = self->max_velocity_rpm_;
  } else if (velocity_limit_rpm < -1.0 * self->max_velocity_rpm_) {
    self->velocity_limit_rpm_ = -1.0 * self->max_velocity_rpm_;
  } else {
    self->velocity_limit_rpm_ = velocity_limit_rpm;
  }
  self->ode_angular_velocity_.SetAngularVelocityLimit_rad_s(self->velocity_limit_rpm_ * math::rpm_to_rad_s);
  return;
}
namespace {
// Timing
int prescaler;
double step_width_s;
// RW specifications
double rotor_inertia_kgm2;
double max_torque_Nm;
double max_velocity_rpm;
// Mounting
math::Quaternion quaternion_b2c;
math::Vector<3> position_b_m;
// Time delay
double dead_time_s;
double time_constant_s;
// Friction
std::vector<double> friction_coefficients;
double stop_limit_angular_velocity_rad_s;
// Initial state
bool init_drive_flag;
double init_velocity_rad_s;
// Jitter
int fast_prescaler;
double jitter_update_interval_s;
bool is_calc_jitter_enabled;
bool is_log_jitter_enabled;
ReactionWheelJitter rw_jitter;
void _InitParams(int actuator_id, std::string file_name, double compo_update_step_s) {
  // Access Parameters
  setting_file_reader::IniAccess rw_ini_file(file_name);
  std::string section_tmp = "REACTION_WHEEL_" + std::to_string(static_cast<long long>(actuator_id));
  const char* rw_section = section_tmp.c_str();

  // Prescaler
  prescaler = rw_ini_file.ReadInt(rw_section, "prescaler");
  if (prescaler <= 1) prescaler = 1;
  step_width_s = compo_update_step_s * prescaler;

  // RW specifications
  rotor_inertia_kgm2 = rw_ini_file.ReadDouble(rw_section, "moment_of_inertia_kgm2");
  max_torque_Nm = rw_ini_file.ReadDouble(rw_section, "max_output_torque_Nm");
  max_velocity_rpm = rw_ini_file.ReadDouble(rw_section, "max_angular_velocity_rpm");

  // Mounting information
  std::string direction_determination_mode;
  direction_determination_mode = rw_ini_file.ReadString(rw_section, "direction_determination_mode");
  if (direction_determination_mode == "QUATERNION") {
    rw_ini_file.ReadQuaternion(rw_section, "quaternion_b2c", quaternion_b2c);
  } else  // direction_determination_mode == "DIRECTION"
  {
    math::Vector<3> direction_b;
    rw_ini_file.ReadVector(rw_section, "direction_b", direction_b);
    math::Vector<3> direction_c(0.0);
    direction_c[2] = 1.0;
    math::Quaternion q(direction_b, direction_c);
    quaternion_b2c = q.Conjugate();
  }
  rw_ini_file.ReadVector(rw_section, "position_b_m", position_b_m);

  // Time delay
  dead_time_s = rw_ini_file.ReadDouble(rw_section, "dead_time_s");
  time_constant_s = rw_ini_file.ReadDouble(rw_section, "time_constant_s");

  // Friction
  size_t friction_order = (size_t)rw_ini_file.ReadInt(rw_section, "friction_order");
  friction_coefficients = rw_ini_file.ReadVectorDouble(rw_section, "friction_coefficients", friction_order);
  stop_limit_angular_velocity_rad_s = rw_ini_file.ReadDouble(rw_section, "stop_limit_angular_velocity_rad_s");

  // Initial state
  init_drive_flag = rw_ini_file.ReadBoolean(rw_section, "initial_motor_drive_flag");
  init_velocity_rad_s = rw_ini_file.ReadDouble(rw_section, "initial_angular_velocity_rad_s");

  // Jitter
  section_tmp = "REACTION_WHEEL_JITTER_" + std::to_string(static_cast<long long>(actuator_id));
  const char* jitter_section = section_tmp.c_str();

  is_calc_jitter_enabled = rw_ini_file.ReadEnable(jitter_section, "jitter_calculation");
  is_log_jitter_enabled = rw_ini_file.ReadEnable(jitter_section, "jitter_logging");
  fast_prescaler = rw_ini_file.ReadInt(jitter_section, "fast_prescaler");
  if (fast_prescaler <= 1) fast_prescaler = 1;
  jitter_update_interval_s = fast_prescaler * compo_update_step_s;

  std::string radial_force_harmonics_coefficient_path = rw_ini_file.ReadString(jitter_section, "radial_force_harmonics_coefficient_file");
  std::string radial_torque_harmonics_coefficient_path = rw_ini_file.ReadString(jitter_section, "radial_torque_harmonics_coefficient_file");
  int harmonics_degree = rw_ini_file.ReadInt(jitter_section, "harmonics_degree");
  setting_file_reader::IniAccess conf_radial_force_harmonics(radial_force_harmonics_coefficient_path);
  setting_file_reader::IniAccess conf_radial_torque_harmonics(radial_torque_harmonics_coefficient_path);
  std::vector<std::vector<double>> radial_force_harmonics_coefficients;
  std::vector<std::vector<double>> radial_torque_harmonics_coefficients;
  conf_radial_force_harmonics.ReadCsvDouble(radial_force_harmonics_coefficients, harmonics_degree);
  conf_radial_torque_harmonics.ReadCsvDouble(radial_torque_harmonics_coefficients, harmonics_degree);

  double structural_resonance_frequency_Hz = rw_ini_file.ReadDouble(jitter_section, "structural_resonance_frequency_Hz");
  double damping_factor = rw_ini_file.ReadDouble(jitter_section, "damping_factor");
  double bandwidth = rw_ini_file.ReadDouble(jitter_section, "bandwidth");
  bool considers_structural_resonance = rw_ini_file.ReadEnable(jitter_section, "considers_structural_resonance");

  rw_jitter = ReactionWheelJitter(radial_force_harmonics_coefficients, radial_torque_harmonics_coefficients, jitter_update_interval_s, quaternion_b2c,
                                  structural_resonance_frequency_Hz, damping_factor, bandwidth, considers_structural_resonance);
}
}  // namespace
//= s2e::components::InitReactionWheel(s2e::environment::ClockGenerator*,int,std::basic_string<char,std::char_traits<char>,std::allocator<char>>,double)
ReactionWheel _InitReactionWheel(environment::ClockGenerator* clock_generator, int actuator_id, std::string file_name, double compo_update_step_s) {
  _InitParams(actuator_id, file_name, compo_update_step_s);

  ReactionWheel rw(prescaler, clock_generator, actuator_id, step_width_s, rotor_inertia_kgm2, max_torque_Nm, max_velocity_rpm, quaternion_b2c,
                   position_b_m, dead_time_s, time_constant_s, friction_coefficients, stop_limit_angular_velocity_rad_s, is_calc_jitter_enabled,
                   is_log_jitter_enabled, fast_prescaler, rw_jitter, init_drive_flag, init_velocity_rad_s);

  return rw;
}
//= s2e::components::InitReactionWheel(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,std::basic_string<char,std::char_traits<char>,std::allocator<char>>,double)
ReactionWheel _InitReactionWheel2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int actuator_id, std::string file_name, double compo_update_step_s) {
  _InitParams(actuator_id, file_name, compo_update_step_s);

  power_port->InitializeWithInitializeFile(file_name);

  ReactionWheel rw(prescaler, clock_generator, power_port, actuator_id, step_width_s, rotor_inertia_kgm2, max_torque_Nm, max_velocity_rpm,
                   quaternion_b2c, position_b_m, dead_time_s, time_constant_s, friction_coefficients, stop_limit_angular_velocity_rad_s,
                   is_calc_jitter_enabled, is_log_jitter_enabled, fast_prescaler, rw_jitter, init_drive_flag, init_velocity_rad_s);

  return rw;
}
}

// ---------------------------------------------------------------- components/real/aocs/reaction_wheel.hpp
namespace s2e::components::ref {
//= s2e::components::ReactionWheel::GetDriveFlag
bool ReactionWheel_GetDriveFlag(ReactionWheel* self) { return self->drive_flag_; }
//= s2e::components::ReactionWheel::GetAngularVelocity_rad_s
double ReactionWheel_GetAngularVelocity_rad_s(ReactionWheel* self) { return self->angular_velocity_rad_s_; }
//= s2e::components::ReactionWheel::GetAngularVelocity_rpm
double ReactionWheel_GetAngularVelocity_rpm(ReactionWheel* self) { return self->angular_velocity_rpm_; }
//= s2e::components::ReactionWheel::GetAngularMomentum_b_Nms
math::Vector<3> ReactionWheel_GetAngularMomentum_b_Nms(ReactionWheel* self) { return self->angular_momentum_b_Nms_; }
//= s2e::components::ReactionWheel::SetDriveFlag
void ReactionWheel_SetDriveFlag(ReactionWheel* self, const bool flag) { self->drive_flag_ = flag; }
}

// ---------------------------------------------------------------- components/real/aocs/reaction_wheel_jitter.cpp
namespace s2e::components::ref {
//= s2e::components::ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double,std::allocator<double>>,std::allocator<std::vector<double,std::allocator<double>>>>,std::vector<std::vector<double,std::allocator<double>>,std::allocator<std::vector<double,std::allocator<double>>>>,constdouble,consts2e::math::Quaternion,constdouble,constdouble,constdouble,constbool)
void ReactionWheelJitter_Ctor(ReactionWheelJitter* self, std::vector<std::vector<double>> radial_force_harmonics_coefficients, std::vector<std::vector<double>> radial_torque_harmonics_coefficients, const double update_interval_s, const math::Quaternion quaternion_b2c, const double structural_resonance_frequency_Hz, const double damping_factor, const double bandwidth, const bool considers_structural_resonance) {
  self->radial_force_harmonics_coefficients_ = radial_force_harmonics_coefficients;
  self->radial_torque_harmonics_coefficients_ = radial_torque_harmonics_coefficients;
  self->update_interval_s_ = update_interval_s;
  self->quaternion_b2c_ = quaternion_b2c;
  self->structural_resonance_frequency_Hz_ = structural_resonance_frequency_Hz;
  self->structural_resonance_angular_frequency_Hz_ = math::tau * structural_resonance_frequency_Hz;
  self->damping_factor_ = damping_factor;
  self->bandwidth_ = bandwidth;
  self->considers_structural_resonance_ = considers_structural_resonance;
  self->unfiltered_jitter_force_n_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_force_n_1_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_force_n_2_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_torque_n_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_torque_n_1_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_torque_n_2_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_force_n_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_force_n_1_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_force_n_2_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_torque_n_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_torque_n_1_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_torque_n_2_c_ = math::Vector<3>{0.0};
  self->jitter_force_b_N_ = math::Vector<3>{0.0};
  self->jitter_torque_b_Nm_ = math::Vector<3>{0.0};

    // TODO: implement algorithm to use this variable
  // Generate random number for initial rotation phase
  std::random_device seed_gen;
  std::default_random_engine engine(seed_gen());
  std::uniform_real_distribution<double> dist(0.0, math::tau);
  // Initialize RW rotation phase
  for (size_t i = 0; i < self->radial_force_harmonics_coefficients_.size(); i++) {
    self->jitter_force_rotation_phase_.push_back(dist(engine));
  }
  for (size_t i = 0; i < self->radial_torque_harmonics_coefficients_.size(); i++) {
    self->jitter_torque_rotation_phase_.push_back(dist(engine));
  }
  // Calculate the coefficients of the difference equation when structural resonance is considered
  if (self->considers_structural_resonance_) {
    self->CalcCoefficients();
  }
}
//= s2e::components::ReactionWheelJitter::CalcJitter
void ReactionWheelJitter_CalcJitter(ReactionWheelJitter* self, double angular_velocity_rad) {
  // Clear jitter in component frame
  self->unfiltered_jitter_force_n_c_ *= 0.0;
  self->unfiltered_jitter_torque_n_c_ *= 0.0;

  // Calculate harmonics force
  for (size_t i = 0; i < self->jitter_force_rotation_phase_.size(); i++) {
    // Advance the phase of RW rotation
    self->jitter_force_rotation_phase_[i] += self->radial_force_harmonics_coefficients_[i][0] * angular_velocity_rad * self->update_interval_s_;
    // Add jitter force
    self->unfiltered_jitter_force_n_c_[0] +=
        self->radial_force_harmonics_coefficients_[i][1] * angular_velocity_rad * angular_velocity_rad * sin(self->jitter_force_rotation_phase_[i]);
    self->unfiltered_jitter_force_n_c_[1] +=
        self->radial_force_harmonics_coefficients_[i][1] * angular_velocity_rad * angular_velocity_rad * cos(self->jitter_force_rotation_phase_[i]);
    // jitter_force_c_[2] += 0.0;
  }

  // Calculate harmonics torque
  for (size_t i = 0; i < self->jitter_torque_rotation_phase_.size(); i++) {
    // Advance the phase of RW rotation
    self->jitter_torque_rotation_phase_[i] += self->radial_torque_harmonics_coefficients_[i][0] * angular_velocity_rad * self->update_interval_s_;
    // Add jitter torque
    self->unfiltered_jitter_torque_n_c_[0] +=
        self->radial_torque_harmonics_coefficients_[i][1] * angular_velocity_rad * angular_velocity_rad * sin(self->jitter_torque_rotation_phase_[i]);
    self->unfiltered_jitter_torque_n_c_[1] +=
        self->radial_torque_harmonics_coefficients_[i][1] * angular_velocity_rad * angular_velocity_rad * cos(self->jitter_torque_rotation_phase_[i]);
    // jitter_torque_c_[2] += 0.0;
  }

  // Add structural resonance
  if (self->considers_structural_resonance_) {
    self->AddStructuralResonance();
    self->jitter_force_b_N_ = self->quaternion_b2c_.InverseFrameConversion(self->filtered_jitter_force_n_c_);
    self->jitter_torque_b_Nm_ = self->quaternion_b2c_.InverseFrameConversion(self->filtered_jitter_torque_n_c_);
  } else {
    self->jitter_force_b_N_ = self->quaternion_b2c_.InverseFrameConversion(self->unfiltered_jitter_force_n_c_);
    self->jitter_torque_b_Nm_ = self->quaternion_b2c_.InverseFrameConversion(self->unfiltered_jitter_torque_n_c_);
  }
}
//= s2e::components::ReactionWheelJitter::AddStructuralResonance
void ReactionWheelJitter_AddStructuralResonance(ReactionWheelJitter* self) {
  // Solve difference equations
  for (int i = 0; i < 3; i++) {
    self->filtered_jitter_force_n_c_[i] = (-self->coefficients_[1] * self->filtered_jitter_force_n_1_c_[i] - self->coefficients_[2] * self->filtered_jitter_force_n_2_c_[i] +
                                     self->coefficients_[3] * self->unfiltered_jitter_force_n_c_[i] + self->coefficients_[4] * self->unfiltered_jitter_force_n_1_c_[i] +
                                     self->coefficients_[5] * self->unfiltered_jitter_force_n_2_c_[i]) /
                                    self->coefficients_[0];

    self->filtered_jitter_torque_n_c_[i] = (-self->coefficients_[1] * self->filtered_jitter_torque_n_1_c_[i] - self->coefficients_[2] * self->filtered_jitter_torque_n_2_c_[i] +
                                      self->coefficients_[3] * self->unfiltered_jitter_torque_n_c_[i] + self->coefficients_[4] * self->unfiltered_jitter_torque_n_1_c_[i] +
                                      self->coefficients_[5] * self->unfiltered_jitter_torque_n_2_c_[i]) /
                                     self->coefficients_[0];
  }

  self->ShiftTimeStep();
}
//= s2e::components::ReactionWheelJitter::ShiftTimeStep
void ReactionWheelJitter_ShiftTimeStep(ReactionWheelJitter* self) {
  self->unfiltered_jitter_force_n_2_c_ = self->unfiltered_jitter_force_n_1_c_;
  self->unfiltered_jitter_force_n_1_c_ = self->unfiltered_jitter_force_n_c_;
  self->filtered_jitter_force_n_2_c_ = self->filtered_jitter_force_n_1_c_;
  self->filtered_jitter_force_n_1_c_ = self->filtered_jitter_force_n_c_;

  self->unfiltered_jitter_torque_n_2_c_ = self->unfiltered_jitter_torque_n_1_c_;
  self->unfiltered_jitter_torque_n_1_c_ = self->unfiltered_jitter_torque_n_c_;
  self->filtered_jitter_torque_n_2_c_ = self->filtered_jitter_torque_n_1_c_;
  self->filtered_jitter_torque_n_1_c_ = self->filtered_jitter_torque_n_c_;
}
//= s2e::components::ReactionWheelJitter::CalcCoefficients
void ReactionWheelJitter_CalcCoefficients(ReactionWheelJitter* self) {
  // Pre-warping
  self->structural_resonance_angular_frequency_Hz_ = 2.0 / self->update_interval_s_ * tan(self->structural_resonance_angular_frequency_Hz_ * self->update_interval_s_ / 2.0);
  // Calculate coefficients of difference equation
  self->coefficients_[0] = 4.0 + 4.0 * self->bandwidth_ * self->damping_factor_ * self->update_interval_s_ * self->structural_resonance_angular_frequency_Hz_ +
                     pow(self->update_interval_s_, 2.0) * pow(self->structural_resonance_angular_frequency_Hz_, 2.0);
  self->coefficients_[1] = -8.0 + 2.0 * pow(self->update_interval_s_, 2.0) * pow(self->structural_resonance_angular_frequency_Hz_, 2.0);
  self->coefficients_[2] = 4.0 - 4.0 * self->bandwidth_ * self->damping_factor_ * self->update_interval_s_ * self->structural_resonance_angular_frequency_Hz_ +
                     pow(self->update_interval_s_, 2.0) * pow(self->structural_resonance_angular_frequency_Hz_, 2.0);
  self->coefficients_[3] = 4.0 + 4.0 * self->damping_factor_ * self->update_interval_s_ * self->structural_resonance_angular_frequency_Hz_ +
                     pow(self->update_interval_s_, 2.0) * pow(self->structural_resonance_angular_frequency_Hz_, 2.0);
  self->coefficients_[4] = -8.0 + 2.0 * pow(self->update_interval_s_, 2.0) * pow(self->structural_resonance_angular_frequency_Hz_, 2.0);
  self->coefficients_[5] = 4.0 - 4.0 * self->damping_factor_ * self->update_interval_s_ * self->structural_resonance_angular_frequency_Hz_ +
                     pow(self->update_interval_s_, 2.0) * pow(self->structural_resonance_angular_frequency_Hz_, 2.0);
}
}

// ---------------------------------------------------------------- components/real/aocs/reaction_wheel_jitter.hpp
namespace s2e::components::ref {
//= s2e::components::ReactionWheelJitter::ReactionWheelJitter()
void ReactionWheelJitter_Ctor(ReactionWheelJitter* self) {
  self->unfiltered_jitter_force_n_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_force_n_1_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_force_n_2_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_torque_n_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_torque_n_1_c_ = math::Vector<3>{0.0};
  self->unfiltered_jitter_torque_n_2_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_force_n_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_force_n_1_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_force_n_2_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_torque_n_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_torque_n_1_c_ = math::Vector<3>{0.0};
  self->filtered_jitter_torque_n_2_c_ = math::Vector<3>{0.0};
  self->jitter_force_b_N_ = math::Vector<3>{0.0};
  self->jitter_torque_b_Nm_ = math::Vector<3>{0.0};
}
//= s2e::components::ReactionWheelJitter::GetJitterForce_b_N
math::Vector<3> ReactionWheelJitter_GetJitterForce_b_N(ReactionWheelJitter* self) { return self->jitter_force_b_N_; }
//= s2e::components::ReactionWheelJitter::GetJitterTorque_b_Nm
math::Vector<3> ReactionWheelJitter_GetJitterTorque_b_Nm(ReactionWheelJitter* self) { return self->jitter_torque_b_Nm_; }
//= s2e::components::ReactionWheelJitter::GetJitterForce_c_N
math::Vector<3> ReactionWheelJitter_GetJitterForce_c_N(ReactionWheelJitter* self) {
    return self->considers_structural_resonance_ ? self->filtered_jitter_force_n_c_ : self->unfiltered_jitter_force_n_c_;
  }
//= s2e::components::ReactionWheelJitter::GetJitterTorque_c_Nm
math::Vector<3> ReactionWheelJitter_GetJitterTorque_c_Nm(ReactionWheelJitter* self) {
    return self->considers_structural_resonance_ ? self->filtered_jitter_torque_n_c_ : self->unfiltered_jitter_torque_n_c_;
  }
}

// ---------------------------------------------------------------- components/real/aocs/reaction_wheel_ode.cpp
namespace s2e::components::ref {
//= s2e::components::ReactionWheelOde::ReactionWheelOde
void ReactionWheelOde_Ctor(ReactionWheelOde* self, const double step_width_s, const double velocity_limit_rad_s, const double initial_angular_velocity_rad_s) {
  OrdinaryDifferentialEquation_Ctor(self, step_width_s);
  self->velocity_limit_rad_s_ = velocity_limit_rad_s;
  self->angular_acceleration_rad_s2_ = 0.0;

  self->Setup(0.0, math::Vector<1>(initial_angular_velocity_rad_s));
}
//= s2e::components::ReactionWheelOde::DerivativeFunction
void ReactionWheelOde_DerivativeFunction(ReactionWheelOde* self, double x, const math::Vector<1> &state, math::Vector<1> &rhs) {
  UNUSED(x);
  double angular_velocity_rad_s = state[0];

  // Check velocity limit
  if (angular_velocity_rad_s > self->velocity_limit_rad_s_) {
    if (self->angular_acceleration_rad_s2_ > 0.0) {
      self->angular_acceleration_rad_s2_ = 0.0;
    }
  } else if (angular_velocity_rad_s < -1.0 * self->velocity_limit_rad_s_) {
    if (self->angular_acceleration_rad_s2_ < 0.0) {
      self->angular_acceleration_rad_s2_ = 0.0;
    }
  }

  rhs[0] = self->angular_acceleration_rad_s2_;
}
}

// ---------------------------------------------------------------- components/real/aocs/reaction_wheel_ode.hpp
namespace s2e::components::ref {
//= s2e::components::ReactionWheelOde::SetAngularAcceleration_rad_s2
void ReactionWheelOde_SetAngularAcceleration_rad_s2(ReactionWheelOde* self, const double acceleration_rad_s2) { self->angular_acceleration_rad_s2_ = acceleration_rad_s2; }
//= s2e::components::ReactionWheelOde::SetAngularVelocityLimit_rad_s
void ReactionWheelOde_SetAngularVelocityLimit_rad_s(ReactionWheelOde* self, const double velocity_limit_rad_s) { self->velocity_limit_rad_s_ = velocity_limit_rad_s; }
//= s2e::components::ReactionWheelOde::GetAngularVelocity_rad_s
double ReactionWheelOde_GetAngularVelocity_rad_s(const ReactionWheelOde* self) { return self->GetState()[0]; }
}

// ---------------------------------------------------------------- components/real/propulsion/simple_thruster.cpp
namespace s2e::components::ref {
//= s2e::components::SimpleThruster::SimpleThruster(constint,s2e::environment::ClockGenerator*,constint,consts2e::math::Vector<3,double>,consts2e::math::Vector<3,double>,constdouble,constdouble,constdouble,constdouble,constdouble,constdouble,consts2e::spacecraft::Structure*,consts2e::dynamics::Dynamics*)
void SimpleThruster_Ctor(SimpleThruster* self, const int prescaler, environment::ClockGenerator* clock_generator, const int component_id, const math::Vector<3> thruster_position_b_m, const math::Vector<3> thrust_direction_b, const double max_magnitude_N, const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad, const double dead_time_s, const double time_constant_s, const double step_width_s, const spacecraft::Structure* structure, const dynamics::Dynamics* dynamics) {
  Component_Ctor(self, prescaler, clock_generator);
  MUT(self->component_id_) = component_id;
  self->thruster_position_b_m_ = thruster_position_b_m;
  self->thrust_direction_b_ = thrust_direction_b;
  self->duty_ = 0.0;
  self->thrust_magnitude_max_N_ = max_magnitude_N;
  self->direction_noise_standard_deviation_rad_ = direction_standard_deviation_rad;
  MUT(self->dead_time_s_) = dead_time_s;
  MUT(self->step_width_s_) = step_width_s;
  new (&self->delayed_duty_) control_utilities::FirstOrderLag(step_width_s, time_constant_s);
  self->output_thrust_b_N_ = math::Vector<3>{0.0};
  self->output_torque_b_Nm_ = math::Vector<3>{0.0};
  self->structure_ = structure;
  self->dynamics_ = dynamics;

  self->Initialize(magnitude_standard_deviation_N, direction_standard_deviation_rad);
  self->InitializeDelay();
}
//= s2e::components::SimpleThruster::SimpleThruster(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constint,consts2e::math::Vector<3,double>,consts2e::math::Vector<3,double>,constdouble,constdouble,constdouble,constdouble,constdouble,constdouble,consts2e::spacecraft::Structure*,consts2e::dynamics::Dynamics*)
void SimpleThruster_Ctor2(SimpleThruster* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const int component_id, const math::Vector<3> thruster_position_b_m, const math::Vector<3> thrust_direction_b, const double max_magnitude_N, const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad, const double dead_time_s, const double time_constant_s, const double step_width_s, const spacecraft::Structure* structure, const dynamics::Dynamics* dynamics) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  MUT(self->component_id_) = component_id;
  self->thruster_position_b_m_ = thruster_position_b_m;
  self->thrust_direction_b_ = thrust_direction_b;
  self->duty_ = 0.0;
  self->thrust_magnitude_max_N_ = max_magnitude_N;
  self->direction_noise_standard_deviation_rad_ = direction_standard_deviation_rad;
  MUT(self->dead_time_s_) = dead_time_s;
  MUT(self->step_width_s_) = step_width_s;
  new (&self->delayed_duty_) control_utilities::FirstOrderLag(step_width_s, time_constant_s);
  self->output_thrust_b_N_ = math::Vector<3>{0.0};
  self->output_torque_b_Nm_ = math::Vector<3>{0.0};
  self->structure_ = structure;
  self->dynamics_ = dynamics;

  self->Initialize(magnitude_standard_deviation_N, direction_standard_deviation_rad);
  self->InitializeDelay();
}
//= s2e::components::SimpleThruster::Initialize
void SimpleThruster_Initialize(SimpleThruster* self, const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
  self->magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N);
  self->direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad);
  self->thrust_direction_b_ = self->thrust_direction_b_.CalcNormalizedVector();
}
//= s2e::components::SimpleThruster::InitializeDelay
void SimpleThruster_InitializeDelay(SimpleThruster* self) {
  size_t len_buffer = (size_t)floor(self->dead_time_s_ / self->step_width_s_) + 1;
  self->duty_delay_buffer_.assign(len_buffer, 0.0);
}
//= s2e::components::SimpleThruster::MainRoutine
void SimpleThruster_MainRoutine(SimpleThruster* self, const int time_count) {
  UNUSED(time_count);

  self->CalcThrust();
  self->CalcTorque(self->structure_->GetKinematicsParameters().GetCenterOfGravity_b_m());
}
//= s2e::components::SimpleThruster::PowerOffRoutine
void SimpleThruster_PowerOffRoutine(SimpleThruster* self) {
  self->output_thrust_b_N_ *= 0.0;
  self->output_torque_b_Nm_ *= 0.0;
}
//= s2e::components::SimpleThruster::CalcThrust
void SimpleThruster_CalcThrust(SimpleThruster* self) {
  double mag = self->CalcThrustMagnitude();
  if (self->duty_ > 0.0 + DBL_EPSILON) mag += self->magnitude_random_noise_;
  self->output_thrust_b_N_ = mag * self->CalcThrustDirection();
}
//= s2e::components::SimpleThruster::CalcTorque
void SimpleThruster_CalcTorque(SimpleThruster* self, const math::Vector<3> center_of_mass_b_m) {
  math::Vector<3> vector_center2thruster = self->thruster_position_b_m_ - center_of_mass_b_m;
  math::Vector<3> torque = OuterProduct(vector_center2thruster, self->output_thrust_b_N_);

  self->output_torque_b_Nm_ = torque;
}
//= s2e::components::SimpleThruster::CalcThrustMagnitude
double SimpleThruster_CalcThrustMagnitude(SimpleThruster* self) {
  // Get delayed duty from dead time buffer
  double delayed_duty = self->duty_delay_buffer_.front();
  self->duty_delay_buffer_.push_back(self->duty_);
  self->duty_delay_buffer_.erase(self->duty_delay_buffer_.begin());

  // Apply first-order lag
  delayed_duty = self->delayed_duty_.Update(delayed_duty);

  return delayed_duty * self->thrust_magnitude_max_N_;
}
//= s2e::components::SimpleThruster::CalcThrustDirection
math::Vector<3> SimpleThruster_CalcThrustDirection(SimpleThruster* self) {
  math::Vector<3> thrust_dir_b_true = self->thrust_direction_b_;
  if (self->direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
    math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
    int flag = rand() % 2;
    double make_axis_rot_rad;
    if (flag == 0) {
      make_axis_rot_rad = math::pi * (double)rand() / RAND_MAX;
    } else {
      make_axis_rot_rad = -math::pi * (double)rand() / RAND_MAX;
    }

    math::Quaternion make_axis_rot(thrust_dir_b_true, make_axis_rot_rad);
    math::Vector<3> axis_rot = make_axis_rot.FrameConversion(ex);

    math::Quaternion err_rot(axis_rot, self->direction_random_noise_);     // Generate error quaternion
    thrust_dir_b_true = err_rot.FrameConversion(thrust_dir_b_true);  // Add error
  }

  return thrust_dir_b_true;
}
//= s2e::components::InitSimpleThruster(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::spacecraft::Structure*,consts2e::dynamics::Dynamics*)
SimpleThruster _InitSimpleThruster(environment::ClockGenerator* clock_generator, int thruster_id, const std::string file_name, const spacecraft::Structure* structure, const dynamics::Dynamics* dynamics) {
  setting_file_reader::IniAccess thruster_conf(file_name);
  std::string section_str = "THRUSTER_" + std::to_string(thruster_id);
  auto* Section = section_str.c_str();

  int prescaler = thruster_conf.ReadInt(Section, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Vector<3> thruster_pos;
  thruster_conf.ReadVector(Section, "thruster_position_b_m", thruster_pos);

  math::Vector<3> thruster_dir;
  thruster_conf.ReadVector(Section, "thruster_direction_b", thruster_dir);

  double max_magnitude_N = thruster_conf.ReadDouble(Section, "thrust_magnitude_N");

  double magnitude_standard_deviation_N;
  magnitude_standard_deviation_N = thruster_conf.ReadDouble(Section, "thrust_error_standard_deviation_N");

  double deg_err;
  deg_err = thruster_conf.ReadDouble(Section, "direction_error_standard_deviation_deg") * math::pi / 180.0;

  // Read delay parameters
  double dead_time_s = thruster_conf.ReadDouble(Section, "dead_time_s");
  double time_constant_s = thruster_conf.ReadDouble(Section, "time_constant_s");
  double step_width_s = thruster_conf.ReadDouble(Section, "step_width_s");

  SimpleThruster thruster(prescaler, clock_generator, thruster_id, thruster_pos, thruster_dir, max_magnitude_N, magnitude_standard_deviation_N,
                          deg_err, dead_time_s, time_constant_s, step_width_s, structure, dynamics);
  return thruster;
}
//= s2e::components::InitSimpleThruster(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::spacecraft::Structure*,consts2e::dynamics::Dynamics*)
SimpleThruster _InitSimpleThruster2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int thruster_id, const std::string file_name, const spacecraft::Structure* structure, const dynamics::Dynamics* dynamics) {
  setting_file_reader::IniAccess thruster_conf(file_name);
  std::string section_str = "THRUSTER_" + std::to_string(thruster_id);
  auto* Section = section_str.c_str();

  int prescaler = thruster_conf.ReadInt(Section, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Vector<3> thruster_pos;
  thruster_conf.ReadVector(Section, "thruster_position_b_m", thruster_pos);

  math::Vector<3> thruster_dir;
  thruster_conf.ReadVector(Section, "thruster_direction_b", thruster_dir);

  double max_magnitude_N = thruster_conf.ReadDouble(Section, "thrust_magnitude_N");

  double magnitude_standard_deviation_N;
  magnitude_standard_deviation_N = thruster_conf.ReadDouble(Section, "thrust_error_standard_deviation_N");

  double deg_err;
  deg_err = thruster_conf.ReadDouble(Section, "direction_error_standard_deviation_deg") * math::pi / 180.0;

  // Read delay parameters
  double dead_time_s = thruster_conf.ReadDouble(Section, "dead_time_s");
  double time_constant_s = thruster_conf.ReadDouble(Section, "time_constant_s");
  double step_width_s = thruster_conf.ReadDouble(Section, "step_width_s");

  power_port->InitializeWithInitializeFile(file_name);

  SimpleThruster thruster(prescaler, clock_generator, power_port, thruster_id, thruster_pos, thruster_dir, max_magnitude_N,
                          magnitude_standard_deviation_N, deg_err, dead_time_s, time_constant_s, step_width_s, structure, dynamics);
  return thruster;
}
}

// ---------------------------------------------------------------- components/real/propulsion/simple_thruster.hpp
namespace s2e::components::ref {
//= s2e::components::SimpleThruster::GetOutputThrust_b_N
math::Vector<3> SimpleThruster_GetOutputThrust_b_N(SimpleThruster* self) { return self->output_thrust_b_N_; }
//= s2e::components::SimpleThruster::GetOutputTorque_b_Nm
math::Vector<3> SimpleThruster_GetOutputTorque_b_Nm(SimpleThruster* self) { return self->output_torque_b_Nm_; }
//= s2e::components::SimpleThruster::SetDuty
void SimpleThruster_SetDuty(SimpleThruster* self, double duty) { self->duty_ = duty; }
}
