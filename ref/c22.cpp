// Reference specification for C22 (parsed, never compiled to code or run).
//! leaves=s2e::randomization::GlobalRandomization::MakeSeed,s2e::randomization::NormalRand::operator double,s2e::randomization::MinimalStandardLcgWithShuffle::operator double
#include "base.hpp"
#include <cassert>
#include <string>
#include "components/base/sensor_template_functions.hpp"
#include "components/ideal/angular_velocity_observer.hpp"
#include "components/ideal/attitude_observer.hpp"
#include "components/ideal/orbit_observer.hpp"
#include "components/real/aocs/gnss_receiver.hpp"
#include "components/real/aocs/gyro_sensor.hpp"
#include "components/real/aocs/magnetometer.hpp"
#include "components/real/aocs/star_sensor.hpp"
#include "components/real/aocs/sun_sensor.hpp"
#include "components/real/mission/telescope.hpp"
#include "environment/global/physical_constants.hpp"
#include "logger/log_utility.hpp"
#include "math_physics/gnss/gnss_satellite_number.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/matrix.hpp"
#include "math_physics/math/quaternion.hpp"
#include "math_physics/randomization/global_randomization.hpp"
#include "math_physics/randomization/normal_randomization.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
// ---------------------------------------------------------------- components/base/sensor_template_functions.hpp
namespace s2e::components::ref {
//= s2e::components::ReadSensorInformation
Sensor<3> _ReadSensorInformation(const std::string file_name, const double step_width_s, const std::string component_name, const std::string unit) {
  setting_file_reader::IniAccess ini_file(file_name);
  std::string section = "SENSOR_BASE_" + component_name;

  math::Vector<3 * 3> scale_factor_vector;
  ini_file.ReadVector(section.c_str(), "scale_factor_c", scale_factor_vector);
  math::Matrix<3, 3> scale_factor_c;
  if (scale_factor_vector.CalcNorm() == 0.0) {
    scale_factor_c = math::MakeIdentityMatrix<3>();
  } else {
    for (size_t i = 0; i < 3; i++) {
      for (size_t j = 0; j < 3; j++) {
        scale_factor_c[i][j] = scale_factor_vector[i * 3 + j];
      }
    }
  }

  std::string key_name;
  math::Vector<3> constant_bias_c;
  key_name = "constant_bias_c_" + unit;
  ini_file.ReadVector(section.c_str(), key_name.c_str(), constant_bias_c);
  math::Vector<3> normal_random_standard_deviation_c;
  key_name = "normal_random_standard_deviation_c_" + unit;
  ini_file.ReadVector(section.c_str(), key_name.c_str(), normal_random_standard_deviation_c);
  math::Vector<3> random_walk_standard_deviation_c;
  key_name = "random_walk_standard_deviation_c_" + unit;
  ini_file.ReadVector(section.c_str(), key_name.c_str(), random_walk_standard_deviation_c);
  math::Vector<3> random_walk_limit_c;
  key_name = "random_walk_limit_c_" + unit;
  ini_file.ReadVector(section.c_str(), key_name.c_str(), random_walk_limit_c);

  key_name = "range_to_constant_" + unit;
  double range_to_const = ini_file.ReadDouble(section.c_str(), key_name.c_str());
  math::Vector<3> range_to_const_c{range_to_const};

  key_name = "range_to_zero_" + unit;
  double range_to_zero = ini_file.ReadDouble(section.c_str(), key_name.c_str());
  math::Vector<3> range_to_zero_c{range_to_zero};

  Sensor<3> sensor_base(scale_factor_c, range_to_const_c, range_to_zero_c, constant_bias_c, normal_random_standard_deviation_c, step_width_s,
                        random_walk_standard_deviation_c, random_walk_limit_c);

  return sensor_base;
}
}

// ---------------------------------------------------------------- components/ideal/angular_velocity_observer.cpp
namespace s2e::components::ref {
//= s2e::components::AngularVelocityObserver::AngularVelocityObserver skip=attitude_
void AngularVelocityObserver_Ctor(AngularVelocityObserver* self, const int prescaler, environment::ClockGenerator* clock_generator, Sensor<3>& sensor_base, const dynamics::attitude::Attitude& attitude) {
  Component_Ctor(self, prescaler, clock_generator);
  new (self) Sensor<3>(sensor_base);
  self->angular_velocity_b_rad_s_ = math::Vector<3>{0.0};
}
//= s2e::components::AngularVelocityObserver::MainRoutine
void AngularVelocityObserver_MainRoutine(AngularVelocityObserver* self, const int time_count) {
  UNUSED(time_count);
  self->angular_velocity_b_rad_s_ = self->Measure(self->attitude_.GetAngularVelocity_b_rad_s());
}
//= s2e::components::InitializeAngularVelocityObserver
AngularVelocityObserver _InitializeAngularVelocityObserver(environment::ClockGenerator* clock_generator, const std::string file_name, double component_step_time_s, const dynamics::attitude::Attitude& attitude) {
  setting_file_reader::IniAccess ini_file(file_name);

  int prescaler = ini_file.ReadInt("COMPONENT_BASE", "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // Sensor
  Sensor<3> sensor_base = ReadSensorInformation<3>(file_name, component_step_time_s * (double)(prescaler), "ANGULAR_VELOCITY_OBSERVER", "rad_s");

  AngularVelocityObserver observer(prescaler, clock_generator, sensor_base, attitude);

  return observer;
}
}

// ---------------------------------------------------------------- components/ideal/angular_velocity_observer.hpp
namespace s2e::components::ref {
//= s2e::components::AngularVelocityObserver::GetAngularVelocity_b_rad_s
math::Vector<3> AngularVelocityObserver_GetAngularVelocity_b_rad_s(AngularVelocityObserver* self) { return self->angular_velocity_b_rad_s_; }
}

// ---------------------------------------------------------------- components/ideal/attitude_observer.cpp
namespace s2e::components::ref {
//= s2e::components::AttitudeObserver::AttitudeObserver skip=attitude_
void AttitudeObserver_Ctor(AttitudeObserver* self, const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad, const dynamics::attitude::Attitude& attitude) {
  Component_Ctor(self, prescaler, clock_generator);
  self->observed_quaternion_i2b_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
  self->angle_noise_ = randomization::NormalRand(0.0, standard_deviation_rad);

  self->direction_noise_.SetParameters(0.0, 1.0);
}
//= s2e::components::AttitudeObserver::MainRoutine
void AttitudeObserver_MainRoutine(AttitudeObserver* self, const int time_count) {
  UNUSED(time_count);

  // Error calculation
  math::Vector<3> random_direction;
  random_direction[0] = self->direction_noise_;
  random_direction[1] = self->direction_noise_;
  random_direction[2] = self->direction_noise_;
  random_direction = random_direction.CalcNormalizedVector();

  double error_angle_rad = self->angle_noise_;
  math::Quaternion error_quaternion(random_direction, error_angle_rad);

  self->observed_quaternion_i2b_ = error_quaternion * self->attitude_.GetQuaternion_i2b();
}
//= s2e::components::InitializeAttitudeObserver
AttitudeObserver _InitializeAttitudeObserver(environment::ClockGenerator* clock_generator, const std::string file_name, const dynamics::attitude::Attitude& attitude) {
  // General
  setting_file_reader::IniAccess ini_file(file_name);

  // CompoBase
  int prescaler = ini_file.ReadInt("COMPONENT_BASE", "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // AttitudeObserver
  double error_angle_standard_deviation_deg = ini_file.ReadDouble("ATTITUDE_OBSERVER", "error_angle_standard_deviation_deg");
  double error_angle_standard_deviation_rad = math::deg_to_rad * error_angle_standard_deviation_deg;
  AttitudeObserver attitude_observer(prescaler, clock_generator, error_angle_standard_deviation_rad, attitude);

  return attitude_observer;
}
}

// ---------------------------------------------------------------- components/ideal/attitude_observer.hpp
namespace s2e::components::ref {
//= s2e::components::AttitudeObserver::GetQuaternion_i2b
math::Quaternion AttitudeObserver_GetQuaternion_i2b(AttitudeObserver* self) { return self->observed_quaternion_i2b_; }
}

// ---------------------------------------------------------------- components/ideal/orbit_observer.cpp
namespace s2e::components::ref {
//= s2e::components::OrbitObserver::OrbitObserver skip=orbit_
void OrbitObserver_Ctor(OrbitObserver* self, const int prescaler, environment::ClockGenerator* clock_generator, const NoiseFrame noise_frame, const math::Vector<6> error_standard_deviation, const dynamics::orbit::Orbit& orbit) {
  Component_Ctor(self, prescaler, clock_generator);
  self->observed_position_i_m_ = math::Vector<3>{0.0};
  self->observed_velocity_i_m_s_ = math::Vector<3>{0.0};
  self->noise_frame_ = noise_frame;

  for (size_t i = 0; i < 6; i++) {
    self->normal_random_noise_[i].SetParameters(0.0, error_standard_deviation[i], randomization::global_randomization.MakeSeed());
  }
}
//= s2e::components::OrbitObserver::MainRoutine
void OrbitObserver_MainRoutine(OrbitObserver* self, const int time_count) {
  UNUSED(time_count);

  // Calc noise
  math::Vector<3> position_error_i_m{0.0};
  math::Vector<3> position_error_rtn_m{0.0};
  math::Vector<3> velocity_error_i_m_s{0.0};
  math::Vector<3> velocity_error_rtn_m_s{0.0};
  math::Quaternion q_i2rtn = self->orbit_.CalcQuaternion_i2lvlh();
  switch (self->noise_frame_) {
    case NoiseFrame::kInertial:
      for (size_t axis = 0; axis < 3; axis++) {
        position_error_i_m[axis] = self->normal_random_noise_[axis];
        velocity_error_i_m_s[axis] = self->normal_random_noise_[axis + 3];
      }
      break;
    case NoiseFrame::kRtn:
      for (size_t axis = 0; axis < 3; axis++) {
        position_error_rtn_m[axis] = self->normal_random_noise_[axis];
        velocity_error_rtn_m_s[axis] = self->normal_random_noise_[axis + 3];
      }
      // Frame conversion
      position_error_i_m = q_i2rtn.InverseFrameConversion(position_error_rtn_m);
      // For zero bias noise, we do not need to care the frame rotation effect.
      velocity_error_i_m_s = q_i2rtn.InverseFrameConversion(velocity_error_rtn_m_s);

      break;
    default:
      break;
  }

  // Get observed value
  self->observed_position_i_m_ = self->orbit_.GetPosition_i_m() + position_error_i_m;
  self->observed_velocity_i_m_s_ = self->orbit_.GetVelocity_i_m_s() + velocity_error_i_m_s;
}
//= s2e::components::SetNoiseFrame
NoiseFrame _SetNoiseFrame(const std::string noise_frame) {
  if (noise_frame == "INERTIAL") {
    return NoiseFrame::kInertial;
  } else if (noise_frame == "RTN") {
    return NoiseFrame::kRtn;
  } else {
    std::cerr << "[WARNINGS] Orbit observer noise frame is not defined!" << std::endl;
    std::cerr << "The noise frame is automatically initialized as INERTIAL" << std::endl;
    return NoiseFrame::kInertial;
  }
}
//= s2e::components::InitializeOrbitObserver
OrbitObserver _InitializeOrbitObserver(environment::ClockGenerator* clock_generator, const std::string file_name, const dynamics::orbit::Orbit& orbit) {
  // General
  setting_file_reader::IniAccess ini_file(file_name);

  // CompoBase
  int prescaler = ini_file.ReadInt("COMPONENT_BASE", "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // Noise
  const NoiseFrame noise_frame = SetNoiseFrame(ini_file.ReadString("ORBIT_OBSERVER", "noise_frame"));
  math::Vector<6> noise_standard_deviation;
  ini_file.ReadVector("ORBIT_OBSERVER", "noise_standard_deviation", noise_standard_deviation);

  OrbitObserver orbit_observer(prescaler, clock_generator, noise_frame, noise_standard_deviation, orbit);

  return orbit_observer;
}
}

// ---------------------------------------------------------------- components/ideal/orbit_observer.hpp
namespace s2e::components::ref {
//= s2e::components::OrbitObserver::GetPosition_i_m
math::Vector<3> OrbitObserver_GetPosition_i_m(OrbitObserver* self) { return self->observed_position_i_m_; }
//= s2e::components::OrbitObserver::GetVelocity_i_m_s
math::Vector<3> OrbitObserver_GetVelocity_i_m_s(OrbitObserver* self) { return self->observed_velocity_i_m_s_; }
}

// ---------------------------------------------------------------- components/real/aocs/gnss_receiver.cpp
namespace s2e::components::ref {
//= s2e::components::GnssReceiver::GnssReceiver(constint,s2e::environment::ClockGenerator*,constunsignedlong,consts2e::components::AntennaModel,consts2e::math::Vector<3,double>,consts2e::math::Quaternion,constdouble,consts2e::math::Vector<3,double>,consts2e::math::Vector<3,double>,consts2e::dynamics::Dynamics*,consts2e::environment::GnssSatellites*,consts2e::environment::SimulationTime*)
void GnssReceiver_Ctor(GnssReceiver* self, const int prescaler, environment::ClockGenerator* clock_generator, const size_t component_id, const AntennaModel antenna_model, const math::Vector<3> antenna_position_b_m, const math::Quaternion quaternion_b2c, const double half_width_deg, const math::Vector<3> position_noise_standard_deviation_ecef_m, const math::Vector<3> velocity_noise_standard_deviation_ecef_m_s, const dynamics::Dynamics* dynamics, const environment::GnssSatellites* gnss_satellites, const environment::SimulationTime* simulation_time) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<size_t&>(self->component_id_) = component_id;
  self->antenna_position_b_m_ = antenna_position_b_m;
  self->quaternion_b2c_ = quaternion_b2c;
  self->half_width_deg_ = half_width_deg;
  self->antenna_model_ = antenna_model;
  self->position_ecef_m_ = math::Vector<3>{0.0};
  self->velocity_ecef_m_s_ = math::Vector<3>{0.0};
  self->utc_ = environment::UTC{2000, 1, 1, 0, 0, 0.0};
  self->gps_time_week_ = 0;
  self->gps_time_s_ = 0.0;
  self->is_gnss_visible_ = false;
  self->visible_satellite_number_ = 0;
  self->dynamics_ = dynamics;
  self->gnss_satellites_ = gnss_satellites;
  self->simulation_time_ = simulation_time;

  for (size_t i = 0; i < 3; i++) {
    self->position_random_noise_ecef_m_[i].SetParameters(0.0, position_noise_standard_deviation_ecef_m[i], randomization::global_randomization.MakeSeed());
    self->velocity_random_noise_ecef_m_s_[i].SetParameters(0.0, velocity_noise_standard_deviation_ecef_m_s[i],
                                                     randomization::global_randomization.MakeSeed());
  }
}
//= s2e::components::GnssReceiver::GnssReceiver(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constunsignedlong,consts2e::components::AntennaModel,consts2e::math::Vector<3,double>,consts2e::math::Quaternion,constdouble,consts2e::math::Vector<3,double>,consts2e::math::Vector<3,double>,consts2e::dynamics::Dynamics*,consts2e::environment::GnssSatellites*,consts2e::environment::SimulationTime*)
void GnssReceiver_Ctor2(GnssReceiver* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const size_t component_id, const AntennaModel antenna_model, const math::Vector<3> antenna_position_b_m, const math::Quaternion quaternion_b2c, const double half_width_deg, const math::Vector<3> position_noise_standard_deviation_ecef_m, const math::Vector<3> velocity_noise_standard_deviation_ecef_m_s, const dynamics::Dynamics* dynamics, const environment::GnssSatellites* gnss_satellites, const environment::SimulationTime* simulation_time) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  const_cast<size_t&>(self->component_id_) = component_id;
  self->antenna_position_b_m_ = antenna_position_b_m;
  self->quaternion_b2c_ = quaternion_b2c;
  self->half_width_deg_ = half_width_deg;
  self->antenna_model_ = antenna_model;
  self->position_ecef_m_ = math::Vector<3>{0.0};
  self->velocity_ecef_m_s_ = math::Vector<3>{0.0};
  self->utc_ = environment::UTC{2000, 1, 1, 0, 0, 0.0};
  self->gps_time_week_ = 0;
  self->gps_time_s_ = 0.0;
  self->is_gnss_visible_ = false;
  self->visible_satellite_number_ = 0;
  self->dynamics_ = dynamics;
  self->gnss_satellites_ = gnss_satellites;
  self->simulation_time_ = simulation_time;

  for (size_t i = 0; i < 3; i++) {
    self->position_random_noise_ecef_m_[i].SetParameters(0.0, position_noise_standard_deviation_ecef_m[i], randomization::global_randomization.MakeSeed());
    self->velocity_random_noise_ecef_m_s_[i].SetParameters(0.0, velocity_noise_standard_deviation_ecef_m_s[i],
                                                     randomization::global_randomization.MakeSeed());
  }
}
//= s2e::components::GnssReceiver::MainRoutine
void GnssReceiver_MainRoutine(GnssReceiver* self, const int time_count) {
  UNUSED(time_count);

  // Antenna checking
  // TODO: Use ECEF position only
  math::Vector<3> position_true_eci = self->dynamics_->GetOrbit().GetPosition_i_m();
  math::Quaternion quaternion_i2b = self->dynamics_->GetAttitude().GetQuaternion_i2b();
  self->CheckAntenna(position_true_eci, quaternion_i2b);

  if (self->is_gnss_visible_) {
    // Antenna of GNSS-R can detect GNSS signal
    self->position_ecef_m_ = self->dynamics_->GetOrbit().GetPosition_ecef_m();
    self->velocity_ecef_m_s_ = self->dynamics_->GetOrbit().GetVelocity_ecef_m_s();
    self->AddNoise(self->position_ecef_m_, self->velocity_ecef_m_s_);
    // Convert observed value to other frames
    self->geodetic_position_.UpdateFromEcef(self->position_ecef_m_);
  }

  // Time is updated with internal clock
  self->utc_ = self->simulation_time_->GetCurrentUtc();
  self->ConvertJulianDayToGpsTime(self->simulation_time_->GetCurrentTime_jd());
}
//= s2e::components::GnssReceiver::CheckAntenna
void GnssReceiver_CheckAntenna(GnssReceiver* self, const math::Vector<3> position_true_eci_m, const math::Quaternion quaternion_i2b) {
  if (self->antenna_model_ == AntennaModel::kSimple) {
    self->CheckAntennaSimple(position_true_eci_m, quaternion_i2b);
  } else if (self->antenna_model_ == AntennaModel::kCone) {
    self->CheckAntennaCone(position_true_eci_m, quaternion_i2b);
  } else {
    std::cout << "[Error] GNSS Receiver: Undefined antenna model." << std::endl;
  }
}
//= s2e::components::GnssReceiver::CheckAntennaSimple
void GnssReceiver_CheckAntennaSimple(GnssReceiver* self, const math::Vector<3> position_true_eci_m, const math::Quaternion quaternion_i2b) {
  // Simplest model
  // GNSS satellites are visible when antenna directs anti-earth direction

  // Antenna normal vector at inertial frame
  math::Vector<3> antenna_direction_c(0.0);
  antenna_direction_c[2] = 1.0;
  math::Vector<3> antenna_direction_b = self->quaternion_b2c_.InverseFrameConversion(antenna_direction_c);
  math::Vector<3> antenna_direction_i = quaternion_i2b.InverseFrameConversion(antenna_direction_b);

  double inner = InnerProduct(position_true_eci_m, antenna_direction_i);
  if (inner <= 0.0) {
    self->is_gnss_visible_ = false;
  } else {
    self->is_gnss_visible_ = true;
  }
}
//= s2e::components::GnssReceiver::CheckAntennaCone
void GnssReceiver_CheckAntennaCone(GnssReceiver* self, const math::Vector<3> position_true_eci_m, const math::Quaternion quaternion_i2b) {
  // Cone model
  self->gnss_information_list_.clear();

  // Antenna pointing direction vector at inertial frame
  math::Vector<3> antenna_pointing_direction_c(0.0);
  antenna_pointing_direction_c[2] = 1.0;
  math::Vector<3> antenna_pointing_direction_b = self->quaternion_b2c_.InverseFrameConversion(antenna_pointing_direction_c);
  math::Vector<3> antenna_pointing_direction_i = quaternion_i2b.InverseFrameConversion(antenna_pointing_direction_b);

  // Antenna position vector at inertial frame
  math::Vector<3> antenna_position_i_m = position_true_eci_m + quaternion_i2b.InverseFrameConversion(self->antenna_position_b_m_);

  // initialize
  self->visible_satellite_number_ = 0;

  size_t number_of_calculated_gnss_satellites = self->gnss_satellites_->GetNumberOfCalculatedSatellite();

  for (size_t i = 0; i < number_of_calculated_gnss_satellites; i++) {
    // compute direction from sat to gnss in body-fixed frame
    math::Vector<3> gnss_satellite_position_i_m = self->gnss_satellites_->GetPosition_eci_m(i);
    math::Vector<3> antenna_to_gnss_satellite_i_m = gnss_satellite_position_i_m - antenna_position_i_m;
    math::Vector<3> antenna_to_gnss_satellite_direction_i = antenna_to_gnss_satellite_i_m.CalcNormalizedVector();

    // Check GNSS satellites are visible from the receiver(not care antenna direction)
    bool is_gnss_satellite_visible_from_receiver = false;
    double inner1 = InnerProduct(antenna_position_i_m, gnss_satellite_position_i_m);
    if (inner1 > 0.0) {  // GNSS satellite and receiver are in the same hemisphere
      is_gnss_satellite_visible_from_receiver = true;
    } else {  // GNSS satellite is in the another hemisphere
      double angle_bw_earth_center_and_edge_rad = asin(environment::earth_equatorial_radius_m / antenna_position_i_m.CalcNorm());
      double angle_bw_earth_center_and_gnss_rad =
          acos(InnerProduct(-antenna_position_i_m.CalcNormalizedVector(), antenna_to_gnss_satellite_direction_i));

      if (angle_bw_earth_center_and_edge_rad < angle_bw_earth_center_and_gnss_rad) {
        // There is no Earth between receiver and GNSS satellite
        is_gnss_satellite_visible_from_receiver = true;
      } else {
        // There is Earth between receiver and GNSS satellite
        is_gnss_satellite_visible_from_receiver = false;
      }
    }

    // Check GNSS satellites are in the antenna half width angle
    double inner2 = InnerProduct(antenna_pointing_direction_i, antenna_to_gnss_satellite_direction_i);
    if (inner2 > cos(self->half_width_deg_ * math::deg_to_rad) && is_gnss_satellite_visible_from_receiver) {
      // is visible
      self->visible_satellite_number_++;
      self->SetGnssInfo(antenna_to_gnss_satellite_i_m, quaternion_i2b, i);
    }
  }

  if (self->visible_satellite_number_ >= 4) {
    self->is_gnss_visible_ = true;
  } else {
    self->is_gnss_visible_ = false;
  }
}
//= s2e::components::GnssReceiver::SetGnssInfo
void GnssReceiver_SetGnssInfo(GnssReceiver* self, const math::Vector<3> antenna_to_satellite_i_m, const math::Quaternion quaternion_i2b, const std::size_t gnss_system_id) {
  math::Vector<3> antenna_to_satellite_direction_b = quaternion_i2b.FrameConversion(antenna_to_satellite_i_m);
  math::Vector<3> antenna_to_satellite_direction_c = self->quaternion_b2c_.FrameConversion(antenna_to_satellite_direction_b);

  double distance_m = antenna_to_satellite_i_m.CalcNorm();
  double longitude_rad = AcTan(antenna_to_satellite_direction_c[1], antenna_to_satellite_direction_c[0]);
  double latitude_rad =
      AcTan(antenna_to_satellite_direction_c[2], sqrt(pow(antenna_to_satellite_direction_c[0], 2.0) + pow(antenna_to_satellite_direction_c[1], 2.0)));

  GnssInfo gnss_info_new = {gnss_system_id, latitude_rad, longitude_rad, distance_m};
  self->gnss_information_list_.push_back(gnss_info_new);
}
//= s2e::components::GnssReceiver::AddNoise
void GnssReceiver_AddNoise(GnssReceiver* self, const math::Vector<3> position_true_ecef_m, const math::Vector<3> velocity_true_ecef_m_s) {
  for (size_t i = 0; i < 3; i++) {
    self->position_ecef_m_[i] = position_true_ecef_m[i] + self->position_random_noise_ecef_m_[i];
    self->velocity_ecef_m_s_[i] = velocity_true_ecef_m_s[i] + self->velocity_random_noise_ecef_m_s_[i];
  }
}
//= s2e::components::GnssReceiver::ConvertJulianDayToGpsTime
void GnssReceiver_ConvertJulianDayToGpsTime(GnssReceiver* self, const double julian_day) {
  const double kJulianDayAtGpsTimeZero = 2444244.5;  // corresponds to 1980/1/5 midnight
  const double kDayInWeek = 7.0;
  const double kSecInDay = 86400.0;

  // compute time of week from current julian_day
  // note:"gps_time_week_ " computed in this method is larger than 1024
  double elapsed_day = julian_day - kJulianDayAtGpsTimeZero;
  self->gps_time_week_ = (unsigned int)(elapsed_day / kDayInWeek);
  self->gps_time_s_ = (elapsed_day - (double)(self->gps_time_week_)*kDayInWeek) * kSecInDay;
}
//= s2e::components::SetAntennaModel
AntennaModel _SetAntennaModel(const std::string antenna_model) {
  if (antenna_model == "SIMPLE") {
    return AntennaModel ::kSimple;
  } else if (antenna_model == "CONE") {
    return AntennaModel ::kCone;
  } else {
    std::cerr << "[WARNINGS] GNSS receiver antenna model is not defined!" << std::endl;
    std::cerr << "The antenna model is automatically initialized as SIMPLE mode" << std::endl;
    return AntennaModel ::kSimple;
  }
}
typedef struct _gnss_receiver_param {
  int prescaler;
  AntennaModel antenna_model;
  math::Vector<3> antenna_pos_b;
  math::Quaternion quaternion_b2c;
  double half_width_deg;
  math::Vector<3> position_noise_standard_deviation_ecef_m;
  math::Vector<3> velocity_noise_standard_deviation_ecef_m_s;
} GnssReceiverParam;
GnssReceiverParam _ReadGnssReceiverIni(const std::string, const environment::GnssSatellites*, const size_t);
//= s2e::components::ReadGnssReceiverIni
GnssReceiverParam _ReadGnssReceiverIni(const std::string file_name, const environment::GnssSatellites* gnss_satellites, const size_t component_id) {
  GnssReceiverParam gnss_receiver_param;

  setting_file_reader::IniAccess gnssr_conf(file_name);
  const char* sensor_name = "GNSS_RECEIVER_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(component_id));
  const char* GSection = section_name.c_str();

  int prescaler = gnssr_conf.ReadInt(GSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;
  gnss_receiver_param.prescaler = prescaler;

  std::string antenna_model_name = gnssr_conf.ReadString(GSection, "antenna_model");
  gnss_receiver_param.antenna_model = SetAntennaModel(antenna_model_name);
  if (!gnss_satellites->IsCalcEnabled() && gnss_receiver_param.antenna_model == AntennaModel::kCone) {
    std::cout << "[WARNINGS] Calculation of GNSS SATELLITES is DISABLED, "
                 "so the antenna model of GnssReceiver is automatically set to SIMPLE model."
              << std::endl;
    gnss_receiver_param.antenna_model = AntennaModel::kSimple;
  }

  gnssr_conf.ReadVector(GSection, "antenna_position_b_m", gnss_receiver_param.antenna_pos_b);
  gnssr_conf.ReadQuaternion(GSection, "quaternion_b2c", gnss_receiver_param.quaternion_b2c);
  gnss_receiver_param.half_width_deg = gnssr_conf.ReadDouble(GSection, "antenna_half_width_deg");
  gnssr_conf.ReadVector(GSection, "white_noise_standard_deviation_position_ecef_m", gnss_receiver_param.position_noise_standard_deviation_ecef_m);
  gnssr_conf.ReadVector(GSection, "white_noise_standard_deviation_velocity_ecef_m_s", gnss_receiver_param.velocity_noise_standard_deviation_ecef_m_s);

  return gnss_receiver_param;
}
//= s2e::components::InitGnssReceiver(s2e::environment::ClockGenerator*,constunsignedlong,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::dynamics::Dynamics*,consts2e::environment::GnssSatellites*,consts2e::environment::SimulationTime*)
GnssReceiver _InitGnssReceiver(environment::ClockGenerator* clock_generator, const size_t component_id, const std::string file_name, const dynamics::Dynamics* dynamics, const environment::GnssSatellites* gnss_satellites, const environment::SimulationTime* simulation_time) {
  GnssReceiverParam gr_param = _ReadGnssReceiverIni(file_name, gnss_satellites, component_id);

  GnssReceiver gnss_r(gr_param.prescaler, clock_generator, component_id, gr_param.antenna_model, gr_param.antenna_pos_b, gr_param.quaternion_b2c,
                      gr_param.half_width_deg, gr_param.position_noise_standard_deviation_ecef_m, gr_param.velocity_noise_standard_deviation_ecef_m_s,
                      dynamics, gnss_satellites, simulation_time);
  return gnss_r;
}
//= s2e::components::InitGnssReceiver(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constunsignedlong,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::dynamics::Dynamics*,consts2e::environment::GnssSatellites*,consts2e::environment::SimulationTime*)
GnssReceiver _InitGnssReceiver2(environment::ClockGenerator* clock_generator, PowerPort* power_port, const size_t component_id, const std::string file_name, const dynamics::Dynamics* dynamics, const environment::GnssSatellites* gnss_satellites, const environment::SimulationTime* simulation_time) {
  GnssReceiverParam gr_param = _ReadGnssReceiverIni(file_name, gnss_satellites, component_id);

  // PowerPort
  power_port->InitializeWithInitializeFile(file_name);

  GnssReceiver gnss_r(gr_param.prescaler, clock_generator, power_port, component_id, gr_param.antenna_model, gr_param.antenna_pos_b,
                      gr_param.quaternion_b2c, gr_param.half_width_deg, gr_param.position_noise_standard_deviation_ecef_m,
                      gr_param.velocity_noise_standard_deviation_ecef_m_s, dynamics, gnss_satellites, simulation_time);
  return gnss_r;
}
}

// ---------------------------------------------------------------- components/real/aocs/gnss_receiver.hpp
namespace s2e::components::ref {
//= s2e::components::GnssReceiver::GetGnssInfo
GnssInfo GnssReceiver_GetGnssInfo(GnssReceiver* self, const size_t channel) { return self->gnss_information_list_[channel]; }
//= s2e::components::GnssReceiver::GetMeasuredPosition_ecef_m
math::Vector<3> GnssReceiver_GetMeasuredPosition_ecef_m(GnssReceiver* self) { return self->position_ecef_m_; }
//= s2e::components::GnssReceiver::GetMeasuredGeodeticPosition
geodesy::GeodeticPosition GnssReceiver_GetMeasuredGeodeticPosition(GnssReceiver* self) { return self->geodetic_position_; }
//= s2e::components::GnssReceiver::GetMeasuredVelocity_ecef_m_s
math::Vector<3> GnssReceiver_GetMeasuredVelocity_ecef_m_s(GnssReceiver* self) { return self->velocity_ecef_m_s_; }
}

// ---------------------------------------------------------------- components/real/aocs/gyro_sensor.cpp
namespace s2e::components::ref {
//= s2e::components::GyroSensor::GyroSensor(constint,s2e::environment::ClockGenerator*,s2e::components::Sensor<3>&,constunsignedint,consts2e::math::Quaternion&,consts2e::dynamics::Dynamics*)
void GyroSensor_Ctor(GyroSensor* self, const int prescaler, environment::ClockGenerator* clock_generator, Sensor<3>& sensor_base, const unsigned int sensor_id, const math::Quaternion& quaternion_b2c, const dynamics::Dynamics* dynamics) {
  Component_Ctor(self, prescaler, clock_generator);
  new (self) Sensor<3>(sensor_base);
  self->angular_velocity_c_rad_s_ = math::Vector<kGyroDimension>{
      0.0};
  self->sensor_id_ = sensor_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->dynamics_ = dynamics;
}
//= s2e::components::GyroSensor::GyroSensor(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,s2e::components::Sensor<3>&,constunsignedint,consts2e::math::Quaternion&,consts2e::dynamics::Dynamics*)
void GyroSensor_Ctor2(GyroSensor* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, Sensor<3>& sensor_base, const unsigned int sensor_id, const math::Quaternion& quaternion_b2c, const dynamics::Dynamics* dynamics) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  new (self) Sensor<3>(sensor_base);
  self->angular_velocity_c_rad_s_ = math::Vector<kGyroDimension>{
      0.0};
  self->sensor_id_ = sensor_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->dynamics_ = dynamics;
}
//= s2e::components::GyroSensor::MainRoutine
void GyroSensor_MainRoutine(GyroSensor* self, const int time_count) {
  UNUSED(time_count);

  self->angular_velocity_c_rad_s_ = self->quaternion_b2c_.FrameConversion(self->dynamics_->GetAttitude().GetAngularVelocity_b_rad_s());  // Convert frame
  self->angular_velocity_c_rad_s_ = self->Measure(self->angular_velocity_c_rad_s_);                                                      // Add noises
}
//= s2e::components::InitGyroSensor(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::dynamics::Dynamics*)
GyroSensor _InitGyroSensor(environment::ClockGenerator* clock_generator, int sensor_id, const std::string file_name, double component_step_time_s, const dynamics::Dynamics* dynamics) {
  setting_file_reader::IniAccess gyro_conf(file_name);
  const char* sensor_name = "GYRO_SENSOR_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(sensor_id));
  const char* GSection = section_name.c_str();

  math::Quaternion quaternion_b2c;
  gyro_conf.ReadQuaternion(GSection, "quaternion_b2c", quaternion_b2c);
  int prescaler = gyro_conf.ReadInt(GSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // Sensor
  Sensor<kGyroDimension> sensor_base =
      ReadSensorInformation<kGyroDimension>(file_name, component_step_time_s * (double)(prescaler), GSection, "rad_s");

  GyroSensor gyro(prescaler, clock_generator, sensor_base, sensor_id, quaternion_b2c, dynamics);

  return gyro;
}
//= s2e::components::InitGyroSensor(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::dynamics::Dynamics*)
GyroSensor _InitGyroSensor2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int sensor_id, const std::string file_name, double component_step_time_s, const dynamics::Dynamics* dynamics) {
  setting_file_reader::IniAccess gyro_conf(file_name);
  const char* sensor_name = "GYRO_SENSOR_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(sensor_id));
  const char* GSection = section_name.c_str();

  math::Quaternion quaternion_b2c;
  gyro_conf.ReadQuaternion(GSection, "quaternion_b2c", quaternion_b2c);
  int prescaler = gyro_conf.ReadInt(GSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  // Sensor
  Sensor<kGyroDimension> sensor_base =
      ReadSensorInformation<kGyroDimension>(file_name, component_step_time_s * (double)(prescaler), GSection, "rad_s");

  // PowerPort
  power_port->InitializeWithInitializeFile(file_name);

  GyroSensor gyro(prescaler, clock_generator, power_port, sensor_base, sensor_id, quaternion_b2c, dynamics);
  return gyro;
}
}

// ---------------------------------------------------------------- components/real/aocs/gyro_sensor.hpp
namespace s2e::components::ref {
//= s2e::components::GyroSensor::GetMeasuredAngularVelocity_c_rad_s
math::Vector<kGyroDimension>& GyroSensor_GetMeasuredAngularVelocity_c_rad_s(GyroSensor* self) { return self->angular_velocity_c_rad_s_; }
}

// ---------------------------------------------------------------- components/real/aocs/magnetometer.cpp
namespace s2e::components::ref {
//= s2e::components::Magnetometer::Magnetometer(int,s2e::environment::ClockGenerator*,s2e::components::Sensor<3>&,constunsignedint,consts2e::math::Quaternion&,consts2e::environment::GeomagneticField*)
void Magnetometer_Ctor(Magnetometer* self, int prescaler, environment::ClockGenerator* clock_generator, Sensor<3>& sensor_base, const unsigned int sensor_id, const math::Quaternion& quaternion_b2c, const environment::GeomagneticField* geomagnetic_field) {
  Component_Ctor(self, prescaler, clock_generator);
  new (self) Sensor<3>(sensor_base);
  self->magnetic_field_c_nT_ = math::Vector<kMagnetometerDimension>{0.0};
  self->sensor_id_ = sensor_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->geomagnetic_field_ = geomagnetic_field;
}
//= s2e::components::Magnetometer::Magnetometer(int,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,s2e::components::Sensor<3>&,constunsignedint,consts2e::math::Quaternion&,consts2e::environment::GeomagneticField*)
void Magnetometer_Ctor2(Magnetometer* self, int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, Sensor<3>& sensor_base, const unsigned int sensor_id, const math::Quaternion& quaternion_b2c, const environment::GeomagneticField* geomagnetic_field) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  new (self) Sensor<3>(sensor_base);
  self->magnetic_field_c_nT_ = math::Vector<kMagnetometerDimension>{0.0};
  self->sensor_id_ = sensor_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->geomagnetic_field_ = geomagnetic_field;
}
//= s2e::components::Magnetometer::MainRoutine
void Magnetometer_MainRoutine(Magnetometer* self, const int time_count) {
  UNUSED(time_count);

  self->magnetic_field_c_nT_ = self->quaternion_b2c_.FrameConversion(self->geomagnetic_field_->GetGeomagneticField_b_nT());  // Convert frame
  self->magnetic_field_c_nT_ = self->Measure(self->magnetic_field_c_nT_);                                                    // Add noises
}
//= s2e::components::InitMagnetometer(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::environment::GeomagneticField*)
Magnetometer _InitMagnetometer(environment::ClockGenerator* clock_generator, int sensor_id, const std::string file_name, double component_step_time_s, const environment::GeomagneticField* geomagnetic_field) {
  setting_file_reader::IniAccess magsensor_conf(file_name);
  const char* sensor_name = "MAGNETOMETER_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(sensor_id));
  const char* MSSection = section_name.c_str();

  int prescaler = magsensor_conf.ReadInt(MSSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Quaternion quaternion_b2c;
  magsensor_conf.ReadQuaternion(MSSection, "quaternion_b2c", quaternion_b2c);

  // Sensor
  Sensor<kMagnetometerDimension> sensor_base =
      ReadSensorInformation<kMagnetometerDimension>(file_name, component_step_time_s * (double)(prescaler), MSSection, "nT");

  Magnetometer magsensor(prescaler, clock_generator, sensor_base, sensor_id, quaternion_b2c, geomagnetic_field);
  return magsensor;
}
//= s2e::components::InitMagnetometer(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::environment::GeomagneticField*)
Magnetometer _InitMagnetometer2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int sensor_id, const std::string file_name, double component_step_time_s, const environment::GeomagneticField* geomagnetic_field) {
  setting_file_reader::IniAccess magsensor_conf(file_name);
  const char* sensor_name = "MAGNETOMETER_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(sensor_id));
  const char* MSSection = section_name.c_str();

  int prescaler = magsensor_conf.ReadInt(MSSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Quaternion quaternion_b2c;
  magsensor_conf.ReadQuaternion(MSSection, "quaternion_b2c", quaternion_b2c);

  // Sensor
  Sensor<kMagnetometerDimension> sensor_base =
      ReadSensorInformation<kMagnetometerDimension>(file_name, component_step_time_s * (double)(prescaler), MSSection, "nT");

  // PowerPort
  power_port->InitializeWithInitializeFile(file_name);

  Magnetometer magsensor(prescaler, clock_generator, power_port, sensor_base, sensor_id, quaternion_b2c, geomagnetic_field);
  return magsensor;
}
}

// ---------------------------------------------------------------- components/real/aocs/magnetometer.hpp
namespace s2e::components::ref {
//= s2e::components::Magnetometer::GetMeasuredMagneticField_c_nT
math::Vector<kMagnetometerDimension>& Magnetometer_GetMeasuredMagneticField_c_nT(Magnetometer* self) { return self->magnetic_field_c_nT_; }
//= s2e::components::Magnetometer::SetConstantBiasNoise_c_nT
void Magnetometer_SetConstantBiasNoise_c_nT(Magnetometer* self, math::Vector<kMagnetometerDimension> constant_noise_c_nT) { self->bias_noise_c_ = constant_noise_c_nT; }
//= s2e::components::Magnetometer::AddConstantBiasNoise_c_nT
void Magnetometer_AddConstantBiasNoise_c_nT(Magnetometer* self, math::Vector<kMagnetometerDimension> constant_noise_c_nT) { self->bias_noise_c_ += constant_noise_c_nT; }
//= s2e::components::Magnetometer::GetConstantBiasNoise_c_nT
math::Vector<kMagnetometerDimension> Magnetometer_GetConstantBiasNoise_c_nT(Magnetometer* self) { return self->bias_noise_c_; }
}

// ---------------------------------------------------------------- components/real/aocs/star_sensor.cpp
namespace s2e::components::ref {
using namespace std;
using namespace s2e::math;
//= s2e::components::StarSensor::StarSensor(constint,s2e::environment::ClockGenerator*,constint,consts2e::math::Quaternion&,constdouble,constdouble,constdouble,constunsignedint,constunsignedint,constdouble,constdouble,constdouble,constdouble,consts2e::dynamics::Dynamics*,consts2e::environment::LocalEnvironment*)
void StarSensor_Ctor(StarSensor* self, const int prescaler, environment::ClockGenerator* clock_generator, const int component_id, const math::Quaternion& quaternion_b2c, const double standard_deviation_orthogonal_direction, const double standard_deviation_sight_direction, const double step_time_s, const unsigned int output_delay, const unsigned int output_interval, const double sun_forbidden_angle_rad, const double earth_forbidden_angle_rad, const double moon_forbidden_angle_rad, const double capture_rate_limit_rad_s, const dynamics::Dynamics* dynamics, const environment::LocalEnvironment* local_environment) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<int&>(self->component_id_) = component_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->measured_quaternion_i2c_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
  self->rotation_noise_ = randomization::MinimalStandardLcgWithShuffle(randomization::global_randomization.MakeSeed());
  self->orthogonal_direction_noise_ = randomization::NormalRand(0.0, standard_deviation_orthogonal_direction, randomization::global_randomization.MakeSeed());
  self->sight_direction_noise_ = randomization::NormalRand(0.0, standard_deviation_sight_direction, randomization::global_randomization.MakeSeed());
  self->buffer_position_ = 0;
  self->step_time_s_ = step_time_s;
  self->output_delay_ = output_delay;
  self->output_interval_ = output_interval;
  self->update_count_ = 0;
  self->sun_forbidden_angle_rad_ = sun_forbidden_angle_rad;
  self->earth_forbidden_angle_rad_ = earth_forbidden_angle_rad;
  self->moon_forbidden_angle_rad_ = moon_forbidden_angle_rad;
  self->capture_rate_limit_rad_s_ = capture_rate_limit_rad_s;
  self->dynamics_ = dynamics;
  self->local_environment_ = local_environment;

  self->Initialize();
}
//= s2e::components::StarSensor::StarSensor(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constint,consts2e::math::Quaternion&,constdouble,constdouble,constdouble,constunsignedint,constunsignedint,constdouble,constdouble,constdouble,constdouble,consts2e::dynamics::Dynamics*,consts2e::environment::LocalEnvironment*)
void StarSensor_Ctor2(StarSensor* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const int component_id, const math::Quaternion& quaternion_b2c, const double standard_deviation_orthogonal_direction, const double standard_deviation_sight_direction, const double step_time_s, const unsigned int output_delay, const unsigned int output_interval, const double sun_forbidden_angle_rad, const double earth_forbidden_angle_rad, const double moon_forbidden_angle_rad, const double capture_rate_limit_rad_s, const dynamics::Dynamics* dynamics, const environment::LocalEnvironment* local_environment) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  const_cast<int&>(self->component_id_) = component_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->measured_quaternion_i2c_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
  self->rotation_noise_ = randomization::MinimalStandardLcgWithShuffle(randomization::global_randomization.MakeSeed());
  self->orthogonal_direction_noise_ = randomization::NormalRand(0.0, standard_deviation_orthogonal_direction, randomization::global_randomization.MakeSeed());
  self->sight_direction_noise_ = randomization::NormalRand(0.0, standard_deviation_sight_direction, randomization::global_randomization.MakeSeed());
  self->buffer_position_ = 0;
  self->step_time_s_ = step_time_s;
  self->output_delay_ = output_delay;
  self->output_interval_ = output_interval;
  self->update_count_ = 0;
  self->sun_forbidden_angle_rad_ = sun_forbidden_angle_rad;
  self->earth_forbidden_angle_rad_ = earth_forbidden_angle_rad;
  self->moon_forbidden_angle_rad_ = moon_forbidden_angle_rad;
  self->capture_rate_limit_rad_s_ = capture_rate_limit_rad_s;
  self->dynamics_ = dynamics;
  self->local_environment_ = local_environment;

  self->Initialize();
}
//= s2e::components::StarSensor::Initialize
void StarSensor_Initialize(StarSensor* self) {
  self->measured_quaternion_i2c_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);

  // Decide delay buffer size
  self->max_delay_ = int(self->output_delay_ * 2 / self->step_time_s_);
  if (self->max_delay_ <= (int)self->output_delay_) self->max_delay_ = (int)self->output_delay_ + 1;
  if (self->max_delay_ <= 0) self->max_delay_ = 1;
  vector<math::Quaternion> temp(self->max_delay_);
  self->delay_buffer_ = temp;
  // Initialize delay buffer
  for (int i = 0; i < self->max_delay_; ++i) {
    self->delay_buffer_[i] = self->measured_quaternion_i2c_;
  }

  self->sight_direction_c_ = math::Vector<3>(0.0);
  self->first_orthogonal_direction_c = math::Vector<3>(0.0);
  self->second_orthogonal_direction_c = math::Vector<3>(0.0);
  self->sight_direction_c_[0] = 1.0;             //(1,0,0)@Component coordinates, viewing direction
  self->first_orthogonal_direction_c[1] = 1.0;   //(0,1,0)@Component coordinates, line-of-sight orthogonal direction
  self->second_orthogonal_direction_c[2] = 1.0;  //(0,0,1)@Component coordinates, line-of-sight orthogonal direction

  self->error_flag_ = true;
}
//= s2e::components::StarSensor::Measure
Quaternion StarSensor_Measure(StarSensor* self, const environment::LocalCelestialInformation* local_celestial_information, const dynamics::attitude::Attitude* attitude) {
  self->update(local_celestial_information, attitude);  // update delay buffer
  if (self->update_count_ == 0) {
    int hist = self->buffer_position_ - self->output_delay_ - 1;
    if (hist < 0) {
      hist += self->max_delay_;
    }
    self->measured_quaternion_i2c_ = self->delay_buffer_[hist];
  }
  if (++self->update_count_ == self->output_interval_) {
    self->update_count_ = 0;
  }

  return self->measured_quaternion_i2c_;
}
//= s2e::components::StarSensor::update
void StarSensor_update(StarSensor* self, const environment::LocalCelestialInformation* local_celestial_information, const dynamics::attitude::Attitude* attitude) {
  Quaternion quaternion_i2b = attitude->GetQuaternion_i2b();  // Read true value
  Quaternion q_stt_temp = quaternion_i2b * self->quaternion_b2c_;   // Convert to component frame
  // Add noise on sight direction
  Quaternion q_sight(self->sight_direction_c_, self->sight_direction_noise_);
  // Random noise on orthogonal direction of sight. Range [0:2pi]
  double rot = math::tau * double(self->rotation_noise_);
  // Calc observation error on orthogonal direction of sight
  math::Vector<3> rot_axis = cos(rot) * self->first_orthogonal_direction_c + sin(rot) * self->second_orthogonal_direction_c;
  math::Quaternion q_ortho(rot_axis, self->orthogonal_direction_noise_);
  // Judge errors
  self->AllJudgement(local_celestial_information, attitude);

  // Calc observed quaternion: Inertial frame → StarSensor frame → Rotation around
  // sight →Rotation around orthogonal direction
  self->delay_buffer_[self->buffer_position_] = q_stt_temp * q_sight * q_ortho;
  // Update delay buffer position
  ++self->buffer_position_;
  self->buffer_position_ %= self->max_delay_;
}
//= s2e::components::StarSensor::AllJudgement
void StarSensor_AllJudgement(StarSensor* self, const environment::LocalCelestialInformation* local_celestial_information, const dynamics::attitude::Attitude* attitude) {
  int judgement = 0;
  judgement = self->SunJudgement(local_celestial_information->GetPositionFromSpacecraft_b_m("SUN"));
  judgement += self->EarthJudgement(local_celestial_information->GetPositionFromSpacecraft_b_m("EARTH"));
  judgement += self->MoonJudgement(local_celestial_information->GetPositionFromSpacecraft_b_m("MOON"));
  judgement += self->CaptureRateJudgement(attitude->GetAngularVelocity_b_rad_s());
  if (judgement > 0)
    self->error_flag_ = true;
  else
    self->error_flag_ = false;
}
//= s2e::components::StarSensor::SunJudgement
int StarSensor_SunJudgement(StarSensor* self, const math::Vector<3>& sun_b) {
  math::Quaternion q_c2b = self->quaternion_b2c_.Conjugate();
  math::Vector<3> sight_b = q_c2b.FrameConversion(self->sight_direction_c_);
  double sun_angle_rad = self->CalAngleVector_rad(sun_b, sight_b);
  if (sun_angle_rad < self->sun_forbidden_angle_rad_)
    return 1;
  else
    return 0;
}
//= s2e::components::StarSensor::EarthJudgement
int StarSensor_EarthJudgement(StarSensor* self, const math::Vector<3>& earth_b) {
  math::Quaternion q_c2b = self->quaternion_b2c_.Conjugate();
  math::Vector<3> sight_b = q_c2b.FrameConversion(self->sight_direction_c_);
  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
  double earth_center_angle_rad = self->CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
  double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
  if (earth_edge_angle_rad < self->earth_forbidden_angle_rad_)
    return 1;
  else
    return 0;
}
//= s2e::components::StarSensor::MoonJudgement
int StarSensor_MoonJudgement(StarSensor* self, const math::Vector<3>& moon_b) {
  math::Quaternion q_c2b = self->quaternion_b2c_.Conjugate();
  math::Vector<3> sight_b = q_c2b.FrameConversion(self->sight_direction_c_);
  double moon_angle_rad = self->CalAngleVector_rad(moon_b, sight_b);
  if (moon_angle_rad < self->moon_forbidden_angle_rad_)
    return 1;
  else
    return 0;
}
//= s2e::components::StarSensor::CaptureRateJudgement
int StarSensor_CaptureRateJudgement(StarSensor* self, const math::Vector<3>& omega_b_rad_s) {
  double omega_norm = omega_b_rad_s.CalcNorm();
  if (omega_norm > self->capture_rate_limit_rad_s_)
    return 1;
  else
    return 0;
}
//= s2e::components::StarSensor::CalAngleVector_rad
double StarSensor_CalAngleVector_rad(StarSensor* self, const Vector<3>& vector1, const Vector<3>& vector2) {
  math::Vector<3> vect1_normal = vector1.CalcNormalizedVector();
  math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();

  double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
  double theta_rad = acos(std::max(-1.0, std::min(1.0, cosTheta)));
  return theta_rad;
}
//= s2e::components::StarSensor::MainRoutine
void StarSensor_MainRoutine(StarSensor* self, const int time_count) {
  UNUSED(time_count);

  self->Measure(&(self->local_environment_->GetCelestialInformation()), &(self->dynamics_->GetAttitude()));
}
//= s2e::components::InitStarSensor(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::dynamics::Dynamics*,consts2e::environment::LocalEnvironment*)
StarSensor _InitStarSensor(environment::ClockGenerator* clock_generator, int sensor_id, const string file_name, double component_step_time_s, const dynamics::Dynamics* dynamics, const environment::LocalEnvironment* local_environment) {
  setting_file_reader::IniAccess STT_conf(file_name);
  const char* sensor_name = "STAR_SENSOR_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(sensor_id));
  const char* STTSection = section_name.c_str();

  int prescaler = STT_conf.ReadInt(STTSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;
  double step_time_s = component_step_time_s * prescaler;
  math::Quaternion quaternion_b2c;
  STT_conf.ReadQuaternion(STTSection, "quaternion_b2c", quaternion_b2c);
  double standard_deviation_orthogonal_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_orthogonal_direction_rad");
  double standard_deviation_sight_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_sight_direction_rad");
  double output_delay_sec = STT_conf.ReadDouble(STTSection, "output_delay_s");
  int output_delay = max(int(output_delay_sec / step_time_s), 1);
  double output_interval_sec = STT_conf.ReadDouble(STTSection, "output_interval_s");
  int output_interval = max(int(output_interval_sec / step_time_s), 1);
  double sun_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "sun_exclusion_angle_deg");
  double sun_forbidden_angle_rad = sun_forbidden_angle_deg * math::pi / 180.0;
  double earth_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "earth_exclusion_angle_deg");
  double earth_forbidden_angle_rad = earth_forbidden_angle_deg * math::pi / 180.0;
  double moon_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "moon_exclusion_angle_deg");
  double moon_forbidden_angle_rad = moon_forbidden_angle_deg * math::pi / 180.0;
  double capture_rate_deg_s = STT_conf.ReadDouble(STTSection, "angular_rate_limit_deg_s");
  double capture_rate_rad_s = capture_rate_deg_s * math::pi / 180.0;

  StarSensor stt(prescaler, clock_generator, sensor_id, quaternion_b2c, standard_deviation_orthogonal_direction, standard_deviation_sight_direction,
                 step_time_s, output_delay, output_interval, sun_forbidden_angle_rad, earth_forbidden_angle_rad, moon_forbidden_angle_rad,
                 capture_rate_rad_s, dynamics, local_environment);
  return stt;
}
//= s2e::components::InitStarSensor(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,double,consts2e::dynamics::Dynamics*,consts2e::environment::LocalEnvironment*)
StarSensor _InitStarSensor2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int sensor_id, const string file_name, double component_step_time_s, const dynamics::Dynamics* dynamics, const environment::LocalEnvironment* local_environment) {
  setting_file_reader::IniAccess STT_conf(file_name);
  const char* sensor_name = "STAR_SENSOR_";
  const std::string section_name = sensor_name + std::to_string(static_cast<long long>(sensor_id));
  const char* STTSection = section_name.c_str();

  int prescaler = STT_conf.ReadInt(STTSection, "prescaler");
  if (prescaler <= 1) prescaler = 1;
  double step_time_s = component_step_time_s * prescaler;

  math::Quaternion quaternion_b2c;
  STT_conf.ReadQuaternion(STTSection, "quaternion_b2c", quaternion_b2c);
  double standard_deviation_orthogonal_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_orthogonal_direction_rad");
  double standard_deviation_sight_direction = STT_conf.ReadDouble(STTSection, "standard_deviation_sight_direction_rad");
  double output_delay_sec = STT_conf.ReadDouble(STTSection, "output_delay_s");
  int output_delay = max(int(output_delay_sec / step_time_s), 1);
  double output_interval_sec = STT_conf.ReadDouble(STTSection, "output_interval_s");
  int output_interval = max(int(output_interval_sec / step_time_s), 1);
  double sun_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "sun_exclusion_angle_deg");
  double sun_forbidden_angle_rad = sun_forbidden_angle_deg * math::pi / 180.0;
  double earth_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "earth_exclusion_angle_deg");
  double earth_forbidden_angle_rad = earth_forbidden_angle_deg * math::pi / 180.0;
  double moon_forbidden_angle_deg = STT_conf.ReadDouble(STTSection, "moon_exclusion_angle_deg");
  double moon_forbidden_angle_rad = moon_forbidden_angle_deg * math::pi / 180.0;
  double capture_rate_deg_s = STT_conf.ReadDouble(STTSection, "angular_rate_limit_deg_s");
  double capture_rate_rad_s = capture_rate_deg_s * math::pi / 180.0;

  power_port->InitializeWithInitializeFile(file_name);

  StarSensor stt(prescaler, clock_generator, power_port, sensor_id, quaternion_b2c, standard_deviation_orthogonal_direction,
                 standard_deviation_sight_direction, step_time_s, output_delay, output_interval, sun_forbidden_angle_rad, earth_forbidden_angle_rad,
                 moon_forbidden_angle_rad, capture_rate_rad_s, dynamics, local_environment);
  return stt;
}
}

// ---------------------------------------------------------------- components/real/aocs/star_sensor.hpp
namespace s2e::components::ref {
//= s2e::components::StarSensor::GetMeasuredQuaternion_i2c
math::Quaternion StarSensor_GetMeasuredQuaternion_i2c(StarSensor* self) { return self->measured_quaternion_i2c_; }
//= s2e::components::StarSensor::GetErrorFlag
bool StarSensor_GetErrorFlag(StarSensor* self) { return self->error_flag_; }
}

// ---------------------------------------------------------------- components/real/aocs/sun_sensor.cpp
namespace s2e::components::ref {
//= s2e::components::SunSensor::SunSensor(constint,s2e::environment::ClockGenerator*,constint,consts2e::math::Quaternion&,constdouble,constdouble,constdouble,constdouble,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*)
void SunSensor_Ctor(SunSensor* self, const int prescaler, environment::ClockGenerator* clock_generator, const int component_id, const math::Quaternion& quaternion_b2c, const double detectable_angle_rad, const double random_noise_standard_deviation_rad, const double bias_noise_standard_deviation_rad, const double intensity_lower_threshold_percent, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<int&>(self->component_id_) = component_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->intensity_lower_threshold_percent_ = intensity_lower_threshold_percent;
  self->sun_direction_true_c_ = math::Vector<3>{0.0};
  self->measured_sun_direction_c_ = math::Vector<3>{0.0};
  self->alpha_rad_ = 0.0;
  self->beta_rad_ = 0.0;
  self->solar_illuminance_W_m2_ = 0.0;
  self->detectable_angle_rad_ = detectable_angle_rad;
  self->sun_detected_flag_ = false;
  self->bias_noise_alpha_rad_ = 0.0;
  self->bias_noise_beta_rad_ = 0.0;
  self->srp_environment_ = srp_environment;
  self->local_celestial_information_ = local_celestial_information;

  self->Initialize(random_noise_standard_deviation_rad, bias_noise_standard_deviation_rad);
}
//= s2e::components::SunSensor::SunSensor(constint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constint,consts2e::math::Quaternion&,constdouble,constdouble,constdouble,constdouble,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*)
void SunSensor_Ctor2(SunSensor* self, const int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const int component_id, const math::Quaternion& quaternion_b2c, const double detectable_angle_rad, const double random_noise_standard_deviation_rad, const double bias_noise_standard_deviation_rad, const double intensity_lower_threshold_percent, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information) {
  Component_Ctor(self, prescaler, clock_generator, power_port);
  const_cast<int&>(self->component_id_) = component_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->intensity_lower_threshold_percent_ = intensity_lower_threshold_percent;
  self->sun_direction_true_c_ = math::Vector<3>{0.0};
  self->measured_sun_direction_c_ = math::Vector<3>{0.0};
  self->alpha_rad_ = 0.0;
  self->beta_rad_ = 0.0;
  self->solar_illuminance_W_m2_ = 0.0;
  self->detectable_angle_rad_ = detectable_angle_rad;
  self->sun_detected_flag_ = false;
  self->bias_noise_alpha_rad_ = 0.0;
  self->bias_noise_beta_rad_ = 0.0;
  self->srp_environment_ = srp_environment;
  self->local_celestial_information_ = local_celestial_information;

  self->Initialize(random_noise_standard_deviation_rad, bias_noise_standard_deviation_rad);
}
//= s2e::components::SunSensor::Initialize
void SunSensor_Initialize(SunSensor* self, const double random_noise_standard_deviation_rad, const double bias_noise_standard_deviation_rad) {
  // Bias
  randomization::NormalRand nr(0.0, bias_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
  self->bias_noise_alpha_rad_ += nr;
  self->bias_noise_beta_rad_ += nr;

  // Normal Random
  self->random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad);  // global_randomization.MakeSeed()
  self->random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad);   // global_randomization.MakeSeed()
}
//= s2e::components::SunSensor::MainRoutine
void SunSensor_MainRoutine(SunSensor* self, const int time_count) {
  UNUSED(time_count);

  self->Measure();
}
//= s2e::components::SunSensor::Measure
void SunSensor_Measure(SunSensor* self) {
  math::Vector<3> sun_pos_b = self->local_celestial_information_->GetPositionFromSpacecraft_b_m("SUN");
  math::Vector<3> sun_dir_b = sun_pos_b.CalcNormalizedVector();

  self->sun_direction_true_c_ = self->quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component

  self->CalcSolarIlluminance();
  self->SunDetectionJudgement();  // Judge the sun is inside the FoV

  if (self->sun_detected_flag_) {
    self->alpha_rad_ = atan2(self->sun_direction_true_c_[0], self->sun_direction_true_c_[2]);
    self->beta_rad_ = atan2(self->sun_direction_true_c_[1], self->sun_direction_true_c_[2]);
    // Add constant bias noise
    self->alpha_rad_ += self->bias_noise_alpha_rad_;
    self->beta_rad_ += self->bias_noise_beta_rad_;

    // Add Normal random noise
    self->alpha_rad_ += self->random_noise_alpha_;
    self->beta_rad_ += self->random_noise_beta_;

    // Range [-π/2:π/2]
    self->alpha_rad_ = self->TanRange(self->alpha_rad_);
    self->beta_rad_ = self->TanRange(self->beta_rad_);

    self->measured_sun_direction_c_[0] = tan(self->alpha_rad_);
    self->measured_sun_direction_c_[1] = tan(self->beta_rad_);
    self->measured_sun_direction_c_[2] = 1.0;

    self->measured_sun_direction_c_ = self->measured_sun_direction_c_.CalcNormalizedVector();
  } else {
    self->measured_sun_direction_c_ = math::Vector<3>(0);
    self->alpha_rad_ = 0.0;
    self->beta_rad_ = 0.0;
  }

}
//= s2e::components::SunSensor::SunDetectionJudgement
void SunSensor_SunDetectionJudgement(SunSensor* self) {
  math::Vector<3> sun_direction_c = self->sun_direction_true_c_.CalcNormalizedVector();

  double sun_angle_ = acos(sun_direction_c[2]);

  if (self->solar_illuminance_W_m2_ < self->intensity_lower_threshold_percent_ / 100.0 * self->srp_environment_->GetSolarConstant_W_m2()) {
    self->sun_detected_flag_ = false;
  } else {
    if (sun_angle_ < self->detectable_angle_rad_) {
      self->sun_detected_flag_ = true;
    } else {
      self->sun_detected_flag_ = false;
    }
  }
}
//= s2e::components::SunSensor::CalcSolarIlluminance
void SunSensor_CalcSolarIlluminance(SunSensor* self) {
  math::Vector<3> sun_direction_c = self->sun_direction_true_c_.CalcNormalizedVector();
  double sun_angle_ = acos(sun_direction_c[2]);

  if (sun_angle_ > math::pi_2) {
    self->solar_illuminance_W_m2_ = 0.0;
    return;
  }

  double power_density = self->srp_environment_->GetPowerDensity_W_m2();
  self->solar_illuminance_W_m2_ = power_density * cos(sun_angle_);
  // TODO: Take into account the effects of albedo.
}
//= s2e::components::SunSensor::TanRange
double SunSensor_TanRange(SunSensor* self, double x) {
  if (x > math::pi_2) x = math::pi - x;
  if (x < -math::pi_2) x = -math::pi - x;
  return x;
}
//= s2e::components::InitSunSensor(s2e::environment::ClockGenerator*,int,std::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*)
SunSensor _InitSunSensor(environment::ClockGenerator* clock_generator, int ss_id, std::string file_name, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information) {
  setting_file_reader::IniAccess ss_conf(file_name);
  const char* sensor_name = "SUN_SENSOR_";
  const std::string section_tmp = sensor_name + std::to_string(static_cast<long long>(ss_id));
  const char* Section = section_tmp.c_str();

  int prescaler = ss_conf.ReadInt(Section, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Quaternion quaternion_b2c;
  ss_conf.ReadQuaternion(Section, "quaternion_b2c", quaternion_b2c);

  double detectable_angle_deg = 0.0, detectable_angle_rad = 0.0;
  detectable_angle_deg = ss_conf.ReadDouble(Section, "field_of_view_deg");
  detectable_angle_rad = math::pi / 180.0 * detectable_angle_deg;

  double nr_stddev = 0.0;
  nr_stddev = ss_conf.ReadDouble(Section, "white_noise_standard_deviation_deg");
  nr_stddev *= math::pi / 180.0;

  double nr_bias_stddev = 0.0;
  nr_bias_stddev = ss_conf.ReadDouble(Section, "bias_standard_deviation_deg");
  nr_bias_stddev *= math::pi / 180.0;

  double intensity_lower_threshold_percent;
  intensity_lower_threshold_percent = ss_conf.ReadDouble(Section, "intensity_lower_threshold_percent");

  SunSensor ss(prescaler, clock_generator, ss_id, quaternion_b2c, detectable_angle_rad, nr_stddev, nr_bias_stddev, intensity_lower_threshold_percent,
               srp_environment, local_celestial_information);
  return ss;
}
//= s2e::components::InitSunSensor(s2e::environment::ClockGenerator*,s2e::components::PowerPort*,int,std::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*)
SunSensor _InitSunSensor2(environment::ClockGenerator* clock_generator, PowerPort* power_port, int ss_id, std::string file_name, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information) {
  setting_file_reader::IniAccess ss_conf(file_name);
  const char* sensor_name = "SUN_SENSOR_";
  const std::string section_tmp = sensor_name + std::to_string(static_cast<long long>(ss_id));
  const char* Section = section_tmp.c_str();

  int prescaler = ss_conf.ReadInt(Section, "prescaler");
  if (prescaler <= 1) prescaler = 1;

  math::Quaternion quaternion_b2c;
  ss_conf.ReadQuaternion(Section, "quaternion_b2c", quaternion_b2c);

  double detectable_angle_deg = 0.0, detectable_angle_rad = 0.0;
  detectable_angle_deg = ss_conf.ReadDouble(Section, "field_of_view_deg");
  detectable_angle_rad = math::pi / 180.0 * detectable_angle_deg;

  double nr_stddev = 0.0;
  nr_stddev = ss_conf.ReadDouble(Section, "white_noise_standard_deviation_deg");
  nr_stddev *= math::pi / 180.0;

  double nr_bias_stddev = 0.0;
  nr_bias_stddev = ss_conf.ReadDouble(Section, "bias_standard_deviation_deg");
  nr_bias_stddev *= math::pi / 180.0;

  double intensity_lower_threshold_percent;
  intensity_lower_threshold_percent = ss_conf.ReadDouble(Section, "intensity_lower_threshold_percent");

  power_port->InitializeWithInitializeFile(file_name);

  SunSensor ss(prescaler, clock_generator, power_port, ss_id, quaternion_b2c, detectable_angle_rad, nr_stddev, nr_bias_stddev,
               intensity_lower_threshold_percent, srp_environment, local_celestial_information);
  return ss;
}
}

// ---------------------------------------------------------------- components/real/aocs/sun_sensor.hpp
namespace s2e::components::ref {
//= s2e::components::SunSensor::GetSunDetectedFlag
bool SunSensor_GetSunDetectedFlag(SunSensor* self) { return self->sun_detected_flag_; }
//= s2e::components::SunSensor::GetMeasuredSunDirection_c
math::Vector<3> SunSensor_GetMeasuredSunDirection_c(SunSensor* self) { return self->measured_sun_direction_c_; }
//= s2e::components::SunSensor::GetMeasuredSunDirection_b
math::Vector<3> SunSensor_GetMeasuredSunDirection_b(SunSensor* self) { return self->quaternion_b2c_.Conjugate().FrameConversion(self->measured_sun_direction_c_); }
//= s2e::components::SunSensor::GetSunAngleAlpha_rad
double SunSensor_GetSunAngleAlpha_rad(SunSensor* self) { return self->alpha_rad_; }
//= s2e::components::SunSensor::GetSunAngleBeta_rad
double SunSensor_GetSunAngleBeta_rad(SunSensor* self) { return self->beta_rad_; }
//= s2e::components::SunSensor::GetSolarIlluminance_W_m2
double SunSensor_GetSolarIlluminance_W_m2(SunSensor* self) { return self->solar_illuminance_W_m2_; }
}

// ---------------------------------------------------------------- components/real/mission/telescope.cpp
namespace s2e::components::ref {
//= s2e::components::Telescope::Telescope
void Telescope_Ctor(Telescope* self, environment::ClockGenerator* clock_generator, const math::Quaternion& quaternion_b2c, const double sun_forbidden_angle_rad, const double earth_forbidden_angle_rad, const double moon_forbidden_angle_rad, const int x_number_of_pix, const int y_number_of_pix, const double x_fov_per_pix, const double y_fov_per_pix, size_t number_of_logged_stars, const dynamics::attitude::Attitude* attitude, const environment::HipparcosCatalogue* hipparcos, const environment::LocalCelestialInformation* local_celestial_information, const dynamics::orbit::Orbit* orbit) {
  Component_Ctor(self, 1, clock_generator);
  self->quaternion_b2c_ = quaternion_b2c;
  self->sun_forbidden_angle_rad_ = sun_forbidden_angle_rad;
  self->earth_forbidden_angle_rad_ = earth_forbidden_angle_rad;
  self->moon_forbidden_angle_rad_ = moon_forbidden_angle_rad;
  self->x_number_of_pix_ = x_number_of_pix;
  self->y_number_of_pix_ = y_number_of_pix;
  self->x_fov_per_pix_ = x_fov_per_pix;
  self->y_fov_per_pix_ = y_fov_per_pix;
  self->ground_position_x_image_sensor_ = 0.0;
  self->ground_position_y_image_sensor_ = 0.0;
  self->is_sun_in_forbidden_angle = false;
  self->is_earth_in_forbidden_angle = false;
  self->is_moon_in_forbidden_angle = false;
  self->number_of_logged_stars_ = number_of_logged_stars;
  self->sun_position_image_sensor = math::Vector<2>{-1};
  self->earth_position_image_sensor = math::Vector<2>{-1};
  self->moon_position_image_sensor = math::Vector<2>{-1};
  self->attitude_ = attitude;
  self->hipparcos_ = hipparcos;
  self->local_celestial_information_ = local_celestial_information;
  self->orbit_ = orbit;

  self->is_sun_in_forbidden_angle = true;
  self->is_earth_in_forbidden_angle = true;
  self->is_moon_in_forbidden_angle = true;

  self->x_field_of_view_rad = self->x_number_of_pix_ * self->x_fov_per_pix_;
  self->y_field_of_view_rad = self->y_number_of_pix_ * self->y_fov_per_pix_;
  assert(self->x_field_of_view_rad < math::pi_2);  // Avoid the case that the field of view is over 90 degrees
  assert(self->y_field_of_view_rad < math::pi_2);

  self->sight_direction_c_ = math::Vector<3>(0);
  self->sight_direction_c_[0] = 1;  // (1,0,0) at component frame, Sight direction vector

  // Set 0 when t=0
  for (size_t i = 0; i < self->number_of_logged_stars_; i++) {
    Star star;
    star.hipparcos_data.hipparcos_id = -1;
    star.hipparcos_data.visible_magnitude = -1;
    star.hipparcos_data.right_ascension_deg = -1;
    star.hipparcos_data.declination_deg = -1;
    star.position_image_sensor[0] = -1;
    star.position_image_sensor[1] = -1;

    self->star_list_in_sight.push_back(star);
  }
  // Get initial spacecraft position in ECEF
  if (self->orbit_ != nullptr) {
    math::Vector<3> initial_spacecraft_position_ecef_m = self->orbit_->GetPosition_ecef_m();
    self->initial_ground_position_ecef_m_ = environment::earth_equatorial_radius_m * initial_spacecraft_position_ecef_m;
    self->initial_ground_position_ecef_m_ /= (self->orbit_->GetGeodeticPosition().GetAltitude_m() + environment::earth_equatorial_radius_m);
  }
}
//= s2e::components::Telescope::MainRoutine
void Telescope_MainRoutine(Telescope* self, const int time_count) {
  UNUSED(time_count);
  // Check forbidden angle
  self->is_sun_in_forbidden_angle = self->JudgeForbiddenAngle(self->local_celestial_information_->GetPositionFromSpacecraft_b_m("SUN"), self->sun_forbidden_angle_rad_);
  self->is_earth_in_forbidden_angle = self->JudgeForbiddenAngle(self->local_celestial_information_->GetPositionFromSpacecraft_b_m("EARTH"), self->earth_forbidden_angle_rad_);
  self->is_moon_in_forbidden_angle = self->JudgeForbiddenAngle(self->local_celestial_information_->GetPositionFromSpacecraft_b_m("MOON"), self->moon_forbidden_angle_rad_);
  // Position calculation of celestial bodies from CelesInfo
  self->Observe(self->sun_position_image_sensor, self->local_celestial_information_->GetPositionFromSpacecraft_b_m("SUN"));
  self->Observe(self->earth_position_image_sensor, self->local_celestial_information_->GetPositionFromSpacecraft_b_m("EARTH"));
  self->Observe(self->moon_position_image_sensor, self->local_celestial_information_->GetPositionFromSpacecraft_b_m("MOON"));
  // Position calculation of stars from Hipparcos Catalogue
  // No update when Hipparcos Catalogue was not read
  if (self->hipparcos_->IsCalcEnabled) self->ObserveStars();
  // Debug ******************************************************************
  //  sun_pos_c = quaternion_b2c_.FrameConversion(dynamics_->celestial_->GetPositionFromSpacecraft_b_m("SUN"));
  //  earth_pos_c = quaternion_b2c_.FrameConversion(dynamics_->celestial_->GetPositionFromSpacecraft_b_m("EARTH"));
  //  moon_pos_c = quaternion_b2c_.FrameConversion(dynamics_->celestial_->GetPositionFromSpacecraft_b_m("MOON"));
  // angle_sun = CalcAngleTwoVectors_rad(sight_direction_c_, sun_pos_c) * 180/math::pi;
  // angle_earth = CalcAngleTwoVectors_rad(sight_direction_c_, earth_pos_c) * 180 / math::pi; angle_moon =
  // CalcAngleTwoVectors_rad(sight_direction_c_, moon_pos_c) * 180 / math::pi;
  //******************************************************************************
  // Direction calculation of ground point
  self->ObserveGroundPositionDeviation();
}
//= s2e::components::Telescope::JudgeForbiddenAngle
bool Telescope_JudgeForbiddenAngle(Telescope* self, const math::Vector<3>& target_b, const double forbidden_angle) {
  math::Quaternion q_c2b = self->quaternion_b2c_.Conjugate();
  math::Vector<3> sight_b = q_c2b.FrameConversion(self->sight_direction_c_);
  double angle_rad = math::CalcAngleTwoVectors_rad(target_b, sight_b);
  if (angle_rad < forbidden_angle) {
    return true;
  } else
    return false;
}
//= s2e::components::Telescope::Observe
void Telescope_Observe(Telescope* self, math::Vector<2>& position_image_sensor, const math::Vector<3, double> target_b) {
  math::Vector<3, double> target_c = self->quaternion_b2c_.FrameConversion(target_b);
  double arg_x = atan2(target_c[2], target_c[0]);  // Angle from X-axis on XZ plane in the component frame
  double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame

  if (abs(arg_x) < self->x_field_of_view_rad && abs(arg_y) < self->y_field_of_view_rad) {
    position_image_sensor[0] = self->x_number_of_pix_ / 2.0 * tan(arg_x) / tan(self->x_field_of_view_rad) + self->x_number_of_pix_ / 2.0;
    position_image_sensor[1] = self->y_number_of_pix_ / 2.0 * tan(arg_y) / tan(self->y_field_of_view_rad) + self->y_number_of_pix_ / 2.0;
  } else {  // Return -1 when the body is in the out of FoV
    position_image_sensor[0] = -1;
    position_image_sensor[1] = -1;
  }
}
//= s2e::components::Telescope::ObserveStars
void Telescope_ObserveStars(Telescope* self) {
  math::Quaternion quaternion_i2b = self->attitude_->GetQuaternion_i2b();

  self->star_list_in_sight.clear();  // Clear first
  size_t count = 0;            // Counter for while loop

  while (self->star_list_in_sight.size() < self->number_of_logged_stars_) {
    math::Vector<3> target_b = self->hipparcos_->GetStarDirection_b(count, quaternion_i2b);
    math::Vector<3> target_c = self->quaternion_b2c_.FrameConversion(target_b);

    double arg_x = atan2(target_c[2], target_c[0]);  // Angle from X-axis on XZ plane in the component frame
    double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame

    if (abs(arg_x) <= self->x_field_of_view_rad && abs(arg_y) <= self->y_field_of_view_rad) {
      Star star;
      star.hipparcos_data.hipparcos_id = self->hipparcos_->GetHipparcosId(count);
      star.hipparcos_data.visible_magnitude = self->hipparcos_->GetVisibleMagnitude(count);
      star.hipparcos_data.right_ascension_deg = self->hipparcos_->GetRightAscension_deg(count);
      star.hipparcos_data.declination_deg = self->hipparcos_->GetDeclination_deg(count);
      star.position_image_sensor[0] = self->x_number_of_pix_ / 2.0 * tan(arg_x) / tan(self->x_field_of_view_rad) + self->x_number_of_pix_ / 2.0;
      star.position_image_sensor[1] = self->y_number_of_pix_ / 2.0 * tan(arg_y) / tan(self->y_field_of_view_rad) + self->y_number_of_pix_ / 2.0;

      self->star_list_in_sight.push_back(star);
    }

    count++;

    // If read all catalogue, fill -1 and break the loop
    if (count >= self->hipparcos_->GetCatalogueSize()) {
      while (self->star_list_in_sight.size() < self->number_of_logged_stars_) {
        Star star;
        star.hipparcos_data.hipparcos_id = -1;
        star.hipparcos_data.visible_magnitude = -1;
        star.hipparcos_data.right_ascension_deg = -1;
        star.hipparcos_data.declination_deg = -1;
        star.position_image_sensor[0] = -1;
        star.position_image_sensor[1] = -1;

        self->star_list_in_sight.push_back(star);
      }

      break;
    }
  }
}
//= s2e::components::Telescope::ObserveGroundPositionDeviation
void Telescope_ObserveGroundPositionDeviation(Telescope* self) {
  // Orbit information is not available, so skip the ground position calculation
  if (self->orbit_ == nullptr) {
    return;
  }
  // Check if the ground point is in the image sensor
  if (self->ground_position_x_image_sensor_ > self->x_number_of_pix_ || self->ground_position_y_image_sensor_ > self->y_number_of_pix_) {
    self->ground_position_x_image_sensor_ = -1;
    self->ground_position_y_image_sensor_ = -1;
    return;
  }

  math::Quaternion quaternion_i2b = self->attitude_->GetQuaternion_i2b();
  math::Vector<3> spacecraft_position_ecef_m = self->orbit_->GetPosition_ecef_m();
  math::Vector<3> direction_ecef = (self->initial_ground_position_ecef_m_ - spacecraft_position_ecef_m).CalcNormalizedVector();
  math::Matrix<3, 3> dcm_ecef_to_i = self->local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef().Transpose();
  math::Vector<3> direction_i = (dcm_ecef_to_i * direction_ecef).CalcNormalizedVector();
  math::Vector<3> direction_b = quaternion_i2b.FrameConversion(direction_i);
  math::Vector<3> target_c = self->quaternion_b2c_.FrameConversion(direction_b);

  // Ground position in the image sensor in the satellite frame
  double ground_angle_z_rad = atan2(target_c[2], target_c[0]);
  self->ground_position_x_image_sensor_ = ground_angle_z_rad / self->x_fov_per_pix_;
  double ground_angle_y_rad = atan2(target_c[1], target_c[0]);
  self->ground_position_y_image_sensor_ = ground_angle_y_rad / self->y_fov_per_pix_;
}
//= s2e::components::InitTelescope
Telescope _InitTelescope(environment::ClockGenerator* clock_generator, int sensor_id, const std::string file_name, const dynamics::attitude::Attitude* attitude, const environment::HipparcosCatalogue* hipparcos, const environment::LocalCelestialInformation* local_celestial_information, const dynamics::orbit::Orbit* orbit) {
  using math::pi;

  setting_file_reader::IniAccess Telescope_conf(file_name);
  const std::string st_sensor_id = std::to_string(static_cast<long long>(sensor_id));
  const char* cs = st_sensor_id.data();

  char TelescopeSection[30] = "TELESCOPE_";
#ifdef WIN32
  strcat_s(TelescopeSection, cs);
#else
  strcat(TelescopeSection, cs);
#endif

  math::Quaternion quaternion_b2c;
  Telescope_conf.ReadQuaternion(TelescopeSection, "quaternion_b2c", quaternion_b2c);

  double sun_forbidden_angle_deg = Telescope_conf.ReadDouble(TelescopeSection, "sun_exclusion_angle_deg");
  double sun_forbidden_angle_rad = sun_forbidden_angle_deg * pi / 180;  // deg to rad
  double earth_forbidden_angle_deg = Telescope_conf.ReadDouble(TelescopeSection, "earth_exclusion_angle_deg");
  double earth_forbidden_angle_rad = earth_forbidden_angle_deg * pi / 180;  // deg to rad
  double moon_forbidden_angle_deg = Telescope_conf.ReadDouble(TelescopeSection, "moon_exclusion_angle_deg");
  double moon_forbidden_angle_rad = moon_forbidden_angle_deg * pi / 180;  // deg to rad

  int x_number_of_pix = Telescope_conf.ReadInt(TelescopeSection, "x_number_of_pixel");
  int y_number_of_pix = Telescope_conf.ReadInt(TelescopeSection, "y_number_of_pixel");

  double x_fov_per_pix_deg = Telescope_conf.ReadDouble(TelescopeSection, "x_fov_deg_per_pixel");
  double x_fov_per_pix_rad = x_fov_per_pix_deg * pi / 180;  // deg to rad
  double y_fov_per_pix_deg = Telescope_conf.ReadDouble(TelescopeSection, "y_fov_deg_per_pixel");
  double y_fov_per_pix_rad = y_fov_per_pix_deg * pi / 180;  // deg to rad

  int number_of_logged_stars = Telescope_conf.ReadInt(TelescopeSection, "number_of_stars_for_log");

  Telescope telescope(clock_generator, quaternion_b2c, sun_forbidden_angle_rad, earth_forbidden_angle_rad, moon_forbidden_angle_rad, x_number_of_pix,
                      y_number_of_pix, x_fov_per_pix_rad, y_fov_per_pix_rad, number_of_logged_stars, attitude, hipparcos, local_celestial_information,
                      orbit);
  return telescope;
}
}

// ---------------------------------------------------------------- components/real/mission/telescope.hpp
namespace s2e::components::ref {
//= s2e::components::Telescope::GetIsSunInForbiddenAngle
bool Telescope_GetIsSunInForbiddenAngle(Telescope* self) { return self->is_sun_in_forbidden_angle; }
//= s2e::components::Telescope::GetIsEarthInForbiddenAngle
bool Telescope_GetIsEarthInForbiddenAngle(Telescope* self) { return self->is_earth_in_forbidden_angle; }
//= s2e::components::Telescope::GetIsMoonInForbiddenAngle
bool Telescope_GetIsMoonInForbiddenAngle(Telescope* self) { return self->is_moon_in_forbidden_angle; }
}

// ---------------------------------------------------------------- components/base/sensor_template_functions.hpp (measurement model)
namespace s2e::components::ref {
//= s2e::components::Sensor<3>::Sensor(consts2e::math::Matrix<3,3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&,constdouble,consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&)
void Sensor_Ctor(Sensor<3>* self, const math::Matrix<3, 3>& scale_factor, const math::Vector<3>& range_to_const_c, const math::Vector<3>& range_to_zero_c, const math::Vector<3>& bias_noise_c, const math::Vector<3>& normal_random_standard_deviation_c, const double random_walk_step_width_s, const math::Vector<3>& random_walk_standard_deviation_c, const math::Vector<3>& random_walk_limit_c) {
  self->bias_noise_c_ = bias_noise_c;
  self->scale_factor_ = scale_factor;
  self->range_to_const_c_ = range_to_const_c;
  self->range_to_zero_c_ = range_to_zero_c;
  self->random_walk_noise_c_ = randomization::RandomWalk<3>(random_walk_step_width_s, random_walk_standard_deviation_c, random_walk_limit_c);
  for (size_t i = 0; i < 3; i++) self->normal_random_noise_c_[i].SetParameters(0.0, normal_random_standard_deviation_c[i], randomization::global_randomization.MakeSeed());
  self->RangeCheck();
}
// the clipping of one axis: constant between the two limits, zero beyond the second
double ClipAxis(const double x, const double to_const, const double to_zero) {
  const double a = fabs(x);
  if (x >= to_const && x < to_zero) return to_const;
  if (x <= -to_const && x > -to_zero) return -to_const;
  if (a >= to_zero) return 0.0;
  return x;
}
//= s2e::components::Sensor<3>::Clip
math::Vector<3> Sensor_Clip(Sensor<3>* self, const math::Vector<3> in) {
  math::Vector<3> out;
  for (size_t i = 0; i < 3; ++i) out[i] = ClipAxis(in[i], self->range_to_const_c_[i], self->range_to_zero_c_[i]);
  return out;
}
//= s2e::components::Sensor<3>::Measure leaves=s2e::components::Sensor::Clip
math::Vector<3> Sensor_Measure(Sensor<3>* self, const math::Vector<3> true_value_c) {
  math::Vector<3> value = self->scale_factor_ * true_value_c + self->bias_noise_c_;
  for (size_t i = 0; i < 3; ++i) value[i] = value[i] + self->random_walk_noise_c_[i] + (double)self->normal_random_noise_c_[i];
  ++self->random_walk_noise_c_;
  return self->Clip(value);
}
//= s2e::components::Sensor<3>::RangeCheck
void Sensor_RangeCheck(Sensor<3>* self) {
  for (size_t i = 0; i < 3; i++) {
    double to_const = self->range_to_const_c_[i];
    double to_zero = self->range_to_zero_c_[i];
    if (to_const < 0.0 || to_zero < 0.0) {
      to_const = fabs(to_const);
      to_zero = fabs(to_zero);
    }
    if (to_const > to_zero) to_zero = 2.0 * to_const;
    self->range_to_const_c_[i] = to_const;
    self->range_to_zero_c_[i] = to_zero;
  }
}
}  // namespace s2e::components::ref
