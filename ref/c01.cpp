// Reference specification for C01: the cells of every log row and of its header (parsed, never compiled to code or run).
#include "base.hpp"
#include <iomanip>
#include <sstream>
#include <string>
#include <SpiceUsr.h>
#include "components/examples/example_change_structure.hpp"
#include "components/ideal/angular_velocity_observer.hpp"
#include "components/ideal/attitude_observer.hpp"
#include "components/ideal/force_generator.hpp"
#include "components/ideal/orbit_observer.hpp"
#include "components/ideal/torque_generator.hpp"
#include "components/real/aocs/gnss_receiver.hpp"
#include "components/real/aocs/gyro_sensor.hpp"
#include "components/real/aocs/magnetometer.hpp"
#include "components/real/aocs/magnetorquer.hpp"
#include "components/real/aocs/reaction_wheel.hpp"
#include "components/real/aocs/star_sensor.hpp"
#include "components/real/aocs/sun_sensor.hpp"
#include "components/real/communication/ground_station_calculator.hpp"
#include "components/real/mission/telescope.hpp"
#include "components/real/power/battery.hpp"
#include "components/real/power/pcu_initial_study.hpp"
#include "components/real/power/power_control_unit.hpp"
#include "components/real/power/solar_array_panel.hpp"
#include "components/real/propulsion/simple_thruster.hpp"
#include "disturbances/air_drag.hpp"
#include "disturbances/geopotential.hpp"
#include "disturbances/gravity_gradient.hpp"
#include "disturbances/lunar_gravity_field.hpp"
#include "disturbances/magnetic_disturbance.hpp"
#include "disturbances/solar_radiation_pressure_disturbance.hpp"
#include "disturbances/third_body_gravity.hpp"
#include "dynamics/attitude/attitude.hpp"
#include "dynamics/attitude/attitude_with_cantilever_vibration.hpp"
#include "dynamics/orbit/orbit.hpp"
#include "dynamics/thermal/temperature.hpp"
#include "environment/global/celestial_information.hpp"
#include "environment/global/gnss_satellites.hpp"
#include "environment/global/hipparcos_catalogue.hpp"
#include "environment/global/simulation_time.hpp"
#include "environment/local/atmosphere.hpp"
#include "environment/local/earth_albedo.hpp"
#include "environment/local/earth_infrared.hpp"
#include "environment/local/geomagnetic_field.hpp"
#include "environment/local/local_celestial_information.hpp"
#include "environment/local/solar_radiation_pressure_environment.hpp"
#include "logger/log_utility.hpp"
#include "simulation/case/simulation_case.hpp"
#include "simulation/ground_station/ground_station.hpp"
#include "simulation/multiple_spacecraft/relative_information.hpp"
namespace s2e::components::ref {
//= s2e::components::ExampleChangeStructure::GetLogHeader
std::string ExampleChangeStructure_GetLogHeader(ExampleChangeStructure* self) {
  std::string str_tmp = "";

  return str_tmp;
}

//= s2e::components::ExampleChangeStructure::GetLogValue
std::string ExampleChangeStructure_GetLogValue(ExampleChangeStructure* self) {
  std::string str_tmp = "";

  return str_tmp;
}

//= s2e::components::AngularVelocityObserver::GetLogHeader
std::string AngularVelocityObserver_GetLogHeader(AngularVelocityObserver* self) {
  std::string str_tmp = "";

  std::string sensor_name = "angular_velocity_observer_";
  str_tmp += logger::WriteVector(sensor_name + "measured_value", "b", "rad/s", 3);

  return str_tmp;
}

//= s2e::components::AngularVelocityObserver::GetLogValue
std::string AngularVelocityObserver_GetLogValue(AngularVelocityObserver* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->angular_velocity_b_rad_s_);

  return str_tmp;
}

//= s2e::components::AttitudeObserver::GetLogHeader
std::string AttitudeObserver_GetLogHeader(AttitudeObserver* self) {
  std::string str_tmp = "";

  std::string head = "attitude_observer_";
  str_tmp += logger::WriteQuaternion(head + "quaternion", "i2b");

  return str_tmp;
}

//= s2e::components::AttitudeObserver::GetLogValue
std::string AttitudeObserver_GetLogValue(AttitudeObserver* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteQuaternion(self->observed_quaternion_i2b_);

  return str_tmp;
}

//= s2e::components::ForceGenerator::GetLogHeader
std::string ForceGenerator_GetLogHeader(ForceGenerator* self) {
  std::string str_tmp = "";

  std::string head = "ideal_force_generator_";
  str_tmp += logger::WriteVector(head + "ordered_force", "b", "N", 3);
  str_tmp += logger::WriteVector(head + "generated_force", "b", "N", 3);
  str_tmp += logger::WriteVector(head + "generated_force", "i", "N", 3);
  str_tmp += logger::WriteVector(head + "generated_force", "rtn", "N", 3);

  return str_tmp;
}

//= s2e::components::ForceGenerator::GetLogValue
std::string ForceGenerator_GetLogValue(ForceGenerator* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->ordered_force_b_N_);
  str_tmp += logger::WriteVector(self->generated_force_b_N_);
  str_tmp += logger::WriteVector(self->generated_force_i_N_);
  str_tmp += logger::WriteVector(self->generated_force_rtn_N_);

  return str_tmp;
}

//= s2e::components::OrbitObserver::GetLogHeader
std::string OrbitObserver_GetLogHeader(OrbitObserver* self) {
  std::string str_tmp = "";

  std::string head = "orbit_observer_";
  str_tmp += logger::WriteVector(head + "position", "i", "m", 3);
  str_tmp += logger::WriteVector(head + "velocity", "i", "m/s", 3);

  return str_tmp;
}

//= s2e::components::OrbitObserver::GetLogValue
std::string OrbitObserver_GetLogValue(OrbitObserver* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->observed_position_i_m_, 16);
  str_tmp += logger::WriteVector(self->observed_velocity_i_m_s_, 16);

  return str_tmp;
}

//= s2e::components::TorqueGenerator::GetLogHeader
std::string TorqueGenerator_GetLogHeader(TorqueGenerator* self) {
  std::string str_tmp = "";

  std::string head = "ideal_torque_generator_";
  str_tmp += logger::WriteVector(head + "ordered_torque", "b", "Nm", 3);
  str_tmp += logger::WriteVector(head + "generated_torque", "b", "Nm", 3);

  return str_tmp;
}

//= s2e::components::TorqueGenerator::GetLogValue
std::string TorqueGenerator_GetLogValue(TorqueGenerator* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->ordered_torque_b_Nm_);
  str_tmp += logger::WriteVector(self->generated_torque_b_Nm_);

  return str_tmp;
}

//= s2e::components::GnssReceiver::GetLogHeader
std::string GnssReceiver_GetLogHeader(GnssReceiver* self) {
  std::string str_tmp = "";
  const std::string sensor_id = std::to_string(static_cast<long long>(self->component_id_));
  std::string sensor_name = "gnss_receiver" + sensor_id + "_";

  str_tmp += logger::WriteScalar(sensor_name + "measured_utc_time_year");
  str_tmp += logger::WriteScalar(sensor_name + "measured_utc_time_month");
  str_tmp += logger::WriteScalar(sensor_name + "measured_utc_time_day");
  str_tmp += logger::WriteScalar(sensor_name + "measured_utc_time_hour");
  str_tmp += logger::WriteScalar(sensor_name + "measured_utc_time_min");
  str_tmp += logger::WriteScalar(sensor_name + "measured_utc_time_sec");
  str_tmp += logger::WriteVector(sensor_name + "measured_position", "ecef", "m", 3);
  str_tmp += logger::WriteVector(sensor_name + "measured_velocity", "ecef", "m/s", 3);
  str_tmp += logger::WriteScalar(sensor_name + "measured_latitude", "rad");
  str_tmp += logger::WriteScalar(sensor_name + "measured_longitude", "rad");
  str_tmp += logger::WriteScalar(sensor_name + "measured_altitude", "m");
  str_tmp += logger::WriteScalar(sensor_name + "satellite_visible_flag");
  str_tmp += logger::WriteScalar(sensor_name + "number_of_visible_satellites");

  return str_tmp;
}

//= s2e::components::GnssReceiver::GetLogValue
std::string GnssReceiver_GetLogValue(GnssReceiver* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteScalar(self->utc_.year);
  str_tmp += logger::WriteScalar(self->utc_.month);
  str_tmp += logger::WriteScalar(self->utc_.day);
  str_tmp += logger::WriteScalar(self->utc_.hour);
  str_tmp += logger::WriteScalar(self->utc_.minute);
  str_tmp += logger::WriteScalar(self->utc_.second);
  str_tmp += logger::WriteVector(self->position_ecef_m_, 10);
  str_tmp += logger::WriteVector(self->velocity_ecef_m_s_, 10);
  str_tmp += logger::WriteScalar(self->geodetic_position_.GetLatitude_rad(), 10);
  str_tmp += logger::WriteScalar(self->geodetic_position_.GetLongitude_rad(), 10);
  str_tmp += logger::WriteScalar(self->geodetic_position_.GetAltitude_m(), 10);
  str_tmp += logger::WriteScalar(self->is_gnss_visible_);
  str_tmp += logger::WriteScalar(self->visible_satellite_number_);

  return str_tmp;
}

//= s2e::components::GyroSensor::GetLogHeader
std::string GyroSensor_GetLogHeader(GyroSensor* self) {
  std::string str_tmp = "";
  const std::string sensor_id = std::to_string(static_cast<long long>(self->sensor_id_));
  std::string sensor_name = "gyro_sensor" + sensor_id + "_";
  str_tmp += logger::WriteVector(sensor_name + "measured_angular_velocity", "c", "rad/s", kGyroDimension);

  return str_tmp;
}

//= s2e::components::GyroSensor::GetLogValue
std::string GyroSensor_GetLogValue(GyroSensor* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->angular_velocity_c_rad_s_);

  return str_tmp;
}

//= s2e::components::Magnetometer::GetLogHeader
std::string Magnetometer_GetLogHeader(Magnetometer* self) {
  std::string str_tmp = "";
  const std::string sensor_id = std::to_string(static_cast<long long>(self->sensor_id_));
  std::string sensor_name = "magnetometer" + sensor_id + "_";
  str_tmp += logger::WriteVector(sensor_name + "measured_magnetic_field", "c", "nT", kMagnetometerDimension);

  return str_tmp;
}

//= s2e::components::Magnetometer::GetLogValue
std::string Magnetometer_GetLogValue(Magnetometer* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->magnetic_field_c_nT_);

  return str_tmp;
}

//= s2e::components::Magnetorquer::GetLogHeader
std::string Magnetorquer_GetLogHeader(Magnetorquer* self) {
  std::string str_tmp = "";
  const std::string actuator_id = std::to_string(static_cast<long long>(self->component_id_));
  std::string actuator_name = "magnetorquer" + actuator_id + "_";

  str_tmp += logger::WriteVector(actuator_name + "output_magnetic_moment", "b", "Am2", kMtqDimension);
  str_tmp += logger::WriteVector(actuator_name + "output_torque", "b", "Nm", kMtqDimension);

  return str_tmp;
}

//= s2e::components::Magnetorquer::GetLogValue
std::string Magnetorquer_GetLogValue(Magnetorquer* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteVector(self->output_magnetic_moment_b_Am2_);
  str_tmp += logger::WriteVector(self->torque_b_Nm_);

  return str_tmp;
}

//= s2e::components::ReactionWheel::GetLogHeader
std::string ReactionWheel_GetLogHeader(ReactionWheel* self) {
  std::string str_tmp = "";
  std::string component_name = "rw" + std::to_string(static_cast<long long>(self->component_id_)) + "_";

  str_tmp += logger::WriteScalar(component_name + "angular_velocity", "rad/s");
  str_tmp += logger::WriteScalar(component_name + "angular_velocity", "rpm");
  str_tmp += logger::WriteScalar(component_name + "angular_velocity_upper_limit", "rpm");
  str_tmp += logger::WriteScalar(component_name + "target_angular_acceleration", "rad/s2");
  str_tmp += logger::WriteScalar(component_name + "angular_acceleration", "rad/s2");

  if (self->is_logged_jitter_ && self->is_calculated_jitter_) {
    str_tmp += logger::WriteVector(component_name + "jitter_force", "c", "N", 3);
    str_tmp += logger::WriteVector(component_name + "jitter_torque", "c", "Nm", 3);
  }

  return str_tmp;
}

//= s2e::components::ReactionWheel::GetLogValue
std::string ReactionWheel_GetLogValue(ReactionWheel* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar(self->angular_velocity_rad_s_);
  str_tmp += logger::WriteScalar(self->angular_velocity_rpm_);
  str_tmp += logger::WriteScalar(self->velocity_limit_rpm_);
  str_tmp += logger::WriteScalar(self->target_acceleration_rad_s2_);
  str_tmp += logger::WriteScalar(self->generated_angular_acceleration_rad_s2_);

  if (self->is_logged_jitter_ && self->is_calculated_jitter_) {
    str_tmp += logger::WriteVector(self->rw_jitter_.GetJitterForce_c_N());
    str_tmp += logger::WriteVector(self->rw_jitter_.GetJitterTorque_c_Nm());
  }

  return str_tmp;
}

//= s2e::components::StarSensor::GetLogHeader
std::string StarSensor_GetLogHeader(StarSensor* self) {
  std::string str_tmp = "";
  const std::string sensor_id = std::to_string(static_cast<long long>(self->component_id_));
  std::string sensor_name = "stt" + sensor_id + "_";

  str_tmp += logger::WriteQuaternion(sensor_name + "measured_quaternion", "i2c");
  str_tmp += logger::WriteScalar(sensor_name + "error_flag");

  return str_tmp;
}

//= s2e::components::StarSensor::GetLogValue
std::string StarSensor_GetLogValue(StarSensor* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteQuaternion(self->measured_quaternion_i2c_);
  str_tmp += logger::WriteScalar(double(self->error_flag_));

  return str_tmp;
}

//= s2e::components::SunSensor::GetLogHeader
std::string SunSensor_GetLogHeader(SunSensor* self) {
  std::string str_tmp = "";
  const std::string sensor_id = std::to_string(static_cast<long long>(self->component_id_));
  std::string sensor_name = "sun_sensor" + sensor_id + "_";

  str_tmp += logger::WriteVector(sensor_name + "measured_sun_direction", "c", "-", 3);
  str_tmp += logger::WriteScalar(sensor_name + "sun_detected_flag", "-");

  return str_tmp;
}

//= s2e::components::SunSensor::GetLogValue
std::string SunSensor_GetLogValue(SunSensor* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->measured_sun_direction_c_);
  str_tmp += logger::WriteScalar(double(self->sun_detected_flag_));

  return str_tmp;
}

//= s2e::components::GroundStationCalculator::GetLogHeader
std::string GroundStationCalculator_GetLogHeader(GroundStationCalculator* self) {
  std::string str_tmp = "";
  std::string component_name = "gs_calculator_";

  str_tmp += logger::WriteScalar(component_name + "max_bitrate", "Mbps");
  str_tmp += logger::WriteScalar(component_name + "receive_margin", "dB");

  return str_tmp;
}

//= s2e::components::GroundStationCalculator::GetLogValue
std::string GroundStationCalculator_GetLogValue(GroundStationCalculator* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar(self->max_bitrate_Mbps_);
  str_tmp += logger::WriteScalar(self->receive_margin_dB_);

  return str_tmp;
}

//= s2e::components::Telescope::GetLogHeader
std::string Telescope_GetLogHeader(Telescope* self) {
  std::string str_tmp = "";

  std::string component_name = "telescope_";

  str_tmp += logger::WriteScalar(component_name + "sun_in_exclusion_angle", "");
  str_tmp += logger::WriteScalar(component_name + "earth_in_exclusion_angle", "");
  str_tmp += logger::WriteScalar(component_name + "moon_in_exclusion_angle", "");
  str_tmp += logger::WriteVector(component_name + "sun_position", "img", "pix", 2);
  str_tmp += logger::WriteVector(component_name + "earth_position", "img", "pix", 2);
  str_tmp += logger::WriteVector(component_name + "moon_position", "img", "pix", 2);
  str_tmp += logger::WriteScalar(component_name + "ground_position_x", "pix");
  str_tmp += logger::WriteScalar(component_name + "ground_position_y", "pix");
  // When Hipparcos Catalogue was not read, no output of ObserveStars
  if (self->hipparcos_->IsCalcEnabled) {
    for (size_t i = 0; i < self->number_of_logged_stars_; i++) {
      str_tmp += logger::WriteScalar(component_name + "hipparcos_id (" + std::to_string(i) + ")", " ");
      str_tmp += logger::WriteScalar(component_name + "visible_magnitude (" + std::to_string(i) + ")", " ");
      str_tmp += logger::WriteVector(component_name + "star_position (" + std::to_string(i) + ")", "img", "pix", 2);
    }
  }

  // Debug output **********************************************
  //  str_tmp += logger::WriteScalar("angle_sun", "");
  //  str_tmp += logger::WriteScalar("angle_earth", "");
  //  str_tmp += logger::WriteScalar("angle_moon", "");
  //**********************************************************
  return str_tmp;
}

//= s2e::components::Telescope::GetLogValue
std::string Telescope_GetLogValue(Telescope* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteScalar(self->is_sun_in_forbidden_angle);
  str_tmp += logger::WriteScalar(self->is_earth_in_forbidden_angle);
  str_tmp += logger::WriteScalar(self->is_moon_in_forbidden_angle);
  str_tmp += logger::WriteVector(self->sun_position_image_sensor);
  str_tmp += logger::WriteVector(self->earth_position_image_sensor);
  str_tmp += logger::WriteVector(self->moon_position_image_sensor);
  str_tmp += logger::WriteScalar(self->ground_position_x_image_sensor_);
  str_tmp += logger::WriteScalar(self->ground_position_y_image_sensor_);
  // When Hipparcos Catalogue was not read, no output of ObserveStars
  if (self->hipparcos_->IsCalcEnabled) {
    for (size_t i = 0; i < self->number_of_logged_stars_; i++) {
      str_tmp += logger::WriteScalar(self->star_list_in_sight[i].hipparcos_data.hipparcos_id);
      str_tmp += logger::WriteScalar(self->star_list_in_sight[i].hipparcos_data.visible_magnitude);
      str_tmp += logger::WriteVector(self->star_list_in_sight[i].position_image_sensor);
    }
  }

  // Debug output **********************************************
  //  str_tmp += logger::WriteScalar(angle_sun);
  //  str_tmp += logger::WriteScalar(angle_earth);
  //  str_tmp += logger::WriteScalar(angle_moon);
  //**********************************************************
  return str_tmp;
}

//= s2e::components::Battery::GetLogHeader
std::string Battery_GetLogHeader(Battery* self) {
  std::string str_tmp = "";
  std::string component_name = "battery_";
  str_tmp += logger::WriteScalar(component_name + "voltage", "V");
  str_tmp += logger::WriteScalar(component_name + "dod", "%");
  return str_tmp;
}

//= s2e::components::Battery::GetLogValue
std::string Battery_GetLogValue(Battery* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteScalar(self->battery_voltage_V_);
  str_tmp += logger::WriteScalar(self->depth_of_discharge_percent_);
  return str_tmp;
}

//= s2e::components::PcuInitialStudy::GetLogHeader
std::string PcuInitialStudy_GetLogHeader(PcuInitialStudy* self) {
  std::string str_tmp = "";
  std::string component_name = "pcu_initial_study_";
  str_tmp += logger::WriteScalar(component_name + "power_consumption", "W");
  str_tmp += logger::WriteScalar(component_name + "bus_voltage", "V");
  return str_tmp;
}

//= s2e::components::PcuInitialStudy::GetLogValue
std::string PcuInitialStudy_GetLogValue(PcuInitialStudy* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteScalar(self->power_consumption_W_);
  str_tmp += logger::WriteScalar(self->bus_voltage_V_);
  return str_tmp;
}

//= s2e::components::PowerControlUnit::GetLogHeader
std::string PowerControlUnit_GetLogHeader(PowerControlUnit* self) {
  std::string str_tmp = "";
  return str_tmp;
}

//= s2e::components::PowerControlUnit::GetLogValue
std::string PowerControlUnit_GetLogValue(PowerControlUnit* self) {
  std::string str_tmp = "";
  return str_tmp;
}

//= s2e::components::SolarArrayPanel::GetLogHeader
std::string SolarArrayPanel_GetLogHeader(SolarArrayPanel* self) {
  std::string str_tmp = "";
  std::string component_name = "sap" + std::to_string(self->component_id_) + "_";
  str_tmp += logger::WriteScalar(component_name + "generated_power", "W");
  return str_tmp;
}

//= s2e::components::SolarArrayPanel::GetLogValue
std::string SolarArrayPanel_GetLogValue(SolarArrayPanel* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteScalar(self->power_generation_W_);
  return str_tmp;
}

//= s2e::components::SimpleThruster::GetLogHeader
std::string SimpleThruster_GetLogHeader(SimpleThruster* self) {
  std::string str_tmp = "";

  std::string head = "simple_thruster" + std::to_string(self->component_id_) + "_";
  str_tmp += logger::WriteVector(head + "output_thrust", "b", "N", 3);
  str_tmp += logger::WriteVector(head + "output_torque", "b", "Nm", 3);
  str_tmp += logger::WriteScalar(head + "output_thrust_norm", "N");
  return str_tmp;
}

//= s2e::components::SimpleThruster::GetLogValue
std::string SimpleThruster_GetLogValue(SimpleThruster* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->output_thrust_b_N_);
  str_tmp += logger::WriteVector(self->output_torque_b_Nm_);
  str_tmp += logger::WriteScalar(self->output_thrust_b_N_.CalcNorm());

  return str_tmp;
}
}

namespace s2e::disturbances::ref {
//= s2e::disturbances::AirDrag::GetLogHeader
std::string AirDrag_GetLogHeader(AirDrag* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("air_drag_torque", "b", "Nm", 3);
  str_tmp += logger::WriteVector("air_drag_force", "b", "N", 3);

  return str_tmp;
}

//= s2e::disturbances::AirDrag::GetLogValue
std::string AirDrag_GetLogValue(AirDrag* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->torque_b_Nm_);
  str_tmp += logger::WriteVector(self->force_b_N_);

  return str_tmp;
}

//= s2e::disturbances::Geopotential::GetLogHeader
std::string Geopotential_GetLogHeader(Geopotential* self) {
  std::string str_tmp = "";

#ifdef DEBUG_GEOPOTENTIAL
  str_tmp += logger::WriteVector("geopotential_calculation_position_", "ecef", "m", 3);
  str_tmp += logger::WriteScalar("geopotential_calculation_time", "ms");
#endif
  str_tmp += logger::WriteVector("geopotential_acceleration", "ecef", "m/s2", 3);

  return str_tmp;
}

//= s2e::disturbances::Geopotential::GetLogValue
std::string Geopotential_GetLogValue(Geopotential* self) {
  std::string str_tmp = "";

#ifdef DEBUG_GEOPOTENTIAL
  str_tmp += logger::WriteVector(debug_pos_ecef_m_, 15);
  str_tmp += logger::WriteScalar(time_ms_);
#endif

  str_tmp += logger::WriteVector(self->acceleration_ecef_m_s2_, 15);

  return str_tmp;
}

//= s2e::disturbances::GravityGradient::GetLogHeader
std::string GravityGradient_GetLogHeader(GravityGradient* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("gravity_gradient_torque", "b", "Nm", 3);

  return str_tmp;
}

//= s2e::disturbances::GravityGradient::GetLogValue
std::string GravityGradient_GetLogValue(GravityGradient* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->torque_b_Nm_);

  return str_tmp;
}

//= s2e::disturbances::LunarGravityField::GetLogHeader
std::string LunarGravityField_GetLogHeader(LunarGravityField* self) {
  std::string str_tmp = "";

#ifdef DEBUG_LUNAR_GRAVITY_FIELD
  str_tmp += logger::WriteVector("lunar_gravity_calculation_position", "mcmf", "m", 3);
  str_tmp += logger::WriteScalar("lunar_gravity_calculation_time", "ms");
#endif
  str_tmp += logger::WriteVector("lunar_gravity_acceleration", "mcmf", "m/s2", 3);

  return str_tmp;
}

//= s2e::disturbances::LunarGravityField::GetLogValue
std::string LunarGravityField_GetLogValue(LunarGravityField* self) {
  std::string str_tmp = "";

#ifdef DEBUG_LUNAR_GRAVITY_FIELD
  str_tmp += logger::WriteVector(debug_pos_mcmf_m_, 15);
  str_tmp += logger::WriteScalar(time_ms_);
#endif

  str_tmp += logger::WriteVector(self->acceleration_mcmf_m_s2_, 15);

  return str_tmp;
}

//= s2e::disturbances::MagneticDisturbance::GetLogHeader
std::string MagneticDisturbance_GetLogHeader(MagneticDisturbance* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("spacecraft_magnetic_moment", "b", "Am2", 3);
  str_tmp += logger::WriteVector("magnetic_disturbance_torque", "b", "Nm", 3);

  return str_tmp;
}

//= s2e::disturbances::MagneticDisturbance::GetLogValue
std::string MagneticDisturbance_GetLogValue(MagneticDisturbance* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->rmm_b_Am2_);
  str_tmp += logger::WriteVector(self->torque_b_Nm_);

  return str_tmp;
}

//= s2e::disturbances::SolarRadiationPressureDisturbance::GetLogHeader
std::string SolarRadiationPressureDisturbance_GetLogHeader(SolarRadiationPressureDisturbance* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("srp_torque", "b", "Nm", 3);
  str_tmp += logger::WriteVector("srp_force", "b", "N", 3);

  return str_tmp;
}

//= s2e::disturbances::SolarRadiationPressureDisturbance::GetLogValue
std::string SolarRadiationPressureDisturbance_GetLogValue(SolarRadiationPressureDisturbance* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->torque_b_Nm_);
  str_tmp += logger::WriteVector(self->force_b_N_);

  return str_tmp;
}

//= s2e::disturbances::ThirdBodyGravity::GetLogHeader
std::string ThirdBodyGravity_GetLogHeader(ThirdBodyGravity* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteVector("third_body_acceleration", "i", "m/s2", 3);

  return str_tmp;
}

//= s2e::disturbances::ThirdBodyGravity::GetLogValue
std::string ThirdBodyGravity_GetLogValue(ThirdBodyGravity* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteVector(self->acceleration_i_m_s2_);

  return str_tmp;
}
}

namespace s2e::dynamics::attitude::ref {
//= s2e::dynamics::attitude::Attitude::GetLogHeader
std::string Attitude_GetLogHeader(Attitude* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("spacecraft_angular_velocity", "b", "rad/s", 3);
  str_tmp += logger::WriteQuaternion("spacecraft_quaternion", "i2b");
  str_tmp += logger::WriteVector("spacecraft_torque", "b", "Nm", 3);
  str_tmp += logger::WriteScalar("spacecraft_total_angular_momentum", "Nms");
  str_tmp += logger::WriteScalar("spacecraft_kinematic_energy", "J");

  return str_tmp;
}

//= s2e::dynamics::attitude::Attitude::GetLogValue
std::string Attitude_GetLogValue(Attitude* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->angular_velocity_b_rad_s_);
  str_tmp += logger::WriteQuaternion(self->quaternion_i2b_);
  str_tmp += logger::WriteVector(self->torque_b_Nm_);
  str_tmp += logger::WriteScalar(self->angular_momentum_total_Nms_);
  str_tmp += logger::WriteScalar(self->kinetic_energy_J_);

  return str_tmp;
}

//= s2e::dynamics::attitude::AttitudeWithCantileverVibration::GetLogHeader
std::string AttitudeWithCantileverVibration_GetLogHeader(AttitudeWithCantileverVibration* self) {
  std::string str_tmp = self->Attitude::GetLogHeader();

  str_tmp += logger::WriteVector("euler_angular_cantilever", "c", "rad", 3);
  str_tmp += logger::WriteVector("angular_velocity_cantilever", "c", "rad/s", 3);

  return str_tmp;
}

//= s2e::dynamics::attitude::AttitudeWithCantileverVibration::GetLogValue
std::string AttitudeWithCantileverVibration_GetLogValue(AttitudeWithCantileverVibration* self) {
  std::string str_tmp = self->Attitude::GetLogValue();

  str_tmp += logger::WriteVector(self->euler_angular_cantilever_rad_);
  str_tmp += logger::WriteVector(self->angular_velocity_cantilever_rad_s_);

  return str_tmp;
}
}

namespace s2e::dynamics::orbit::ref {
//= s2e::dynamics::orbit::Orbit::GetLogHeader
std::string Orbit_GetLogHeader(Orbit* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("spacecraft_position", "i", "m", 3);
  str_tmp += logger::WriteVector("spacecraft_position", "ecef", "m", 3);
  str_tmp += logger::WriteVector("spacecraft_velocity", "i", "m/s", 3);
  str_tmp += logger::WriteVector("spacecraft_velocity", "b", "m/s", 3);
  str_tmp += logger::WriteVector("spacecraft_acceleration", "i", "m/s2", 3);
  str_tmp += logger::WriteScalar("spacecraft_latitude", "rad");
  str_tmp += logger::WriteScalar("spacecraft_longitude", "rad");
  str_tmp += logger::WriteScalar("spacecraft_altitude", "m");

  return str_tmp;
}

//= s2e::dynamics::orbit::Orbit::GetLogValue
std::string Orbit_GetLogValue(Orbit* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->spacecraft_position_i_m_, 16);
  str_tmp += logger::WriteVector(self->spacecraft_position_ecef_m_, 16);
  str_tmp += logger::WriteVector(self->spacecraft_velocity_i_m_s_, 10);
  str_tmp += logger::WriteVector(self->spacecraft_velocity_b_m_s_, 10);
  str_tmp += logger::WriteVector(self->spacecraft_acceleration_i_m_s2_, 10);
  str_tmp += logger::WriteScalar(self->spacecraft_geodetic_position_.GetLatitude_rad());
  str_tmp += logger::WriteScalar(self->spacecraft_geodetic_position_.GetLongitude_rad());
  str_tmp += logger::WriteScalar(self->spacecraft_geodetic_position_.GetAltitude_m());

  return str_tmp;
}
}

namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Temperature::GetLogHeader
std::string Temperature_GetLogHeader(Temperature* self) {
  std::string str_tmp = "";
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      std::string str_node = "temp_" + std::to_string(self->nodes_[i].GetNodeId()) + " (" + self->nodes_[i].GetNodeName() + ")";
      str_tmp += logger::WriteScalar(str_node, "deg");
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      std::string str_node = "heat_" + std::to_string(self->nodes_[i].GetNodeId()) + " (" + self->nodes_[i].GetNodeName() + ")";
      str_tmp += logger::WriteScalar(str_node, "W");
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      std::string str_node = "solar_" + std::to_string(self->nodes_[i].GetNodeId()) + " (" + self->nodes_[i].GetNodeName() + ")";
      str_tmp += logger::WriteScalar(str_node, "W");
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      std::string str_node = "albedo_" + std::to_string(self->nodes_[i].GetNodeId()) + " (" + self->nodes_[i].GetNodeName() + ")";
      str_tmp += logger::WriteScalar(str_node, "W");
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      std::string str_node = "earthIR_" + std::to_string(self->nodes_[i].GetNodeId()) + " (" + self->nodes_[i].GetNodeName() + ")";
      str_tmp += logger::WriteScalar(str_node, "W");
    }
  }
  return str_tmp;
}

//= s2e::dynamics::thermal::Temperature::GetLogValue
std::string Temperature_GetLogValue(Temperature* self) {
  std::string str_tmp = "";
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      str_tmp += logger::WriteScalar(self->nodes_[i].GetTemperature_degC());
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      str_tmp += logger::WriteScalar(self->heatloads_[i].GetTotalHeatload_W());
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      str_tmp += logger::WriteScalar(self->nodes_[i].GetSolarRadiation_W());
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      str_tmp += logger::WriteScalar(self->nodes_[i].GetAlbedoRadiation_W());
    }
  }
  for (size_t i = 0; i < self->node_num_; i++) {
    // Do not retrieve boundary node values
    if (self->nodes_[i].GetNodeType() != NodeType::kBoundary) {
      str_tmp += logger::WriteScalar(self->nodes_[i].GetEarthInfraredRadiation_W());
    }
  }
  return str_tmp;
}
}

namespace s2e::environment::ref {
//= s2e::environment::CelestialInformation::GetLogHeader
std::string CelestialInformation_GetLogHeader(CelestialInformation* self) {
  SpiceBoolean found;
  const int kMaxNameLength = 100;
  char name_buffer[kMaxNameLength];
  std::string str_tmp = "";
  for (unsigned int i = 0; i < self->number_of_selected_bodies_; i++) {
    SpiceInt planet_id = self->selected_body_ids_[i];
    // Acquisition of body name from id
    bodc2n_c(planet_id, kMaxNameLength, name_buffer, (SpiceBoolean*)&found);
    std::string name = name_buffer;

    std::locale loc = std::locale::classic();
    std::transform(name.begin(), name.end(), name.begin(), [loc](char c) { return std::tolower(c, loc); });

    std::string body_pos = name + "_position";
    std::string body_vel = name + "_velocity";

    str_tmp += logger::WriteVector(body_pos, "i", "m", 3);
    str_tmp += logger::WriteVector(body_vel, "i", "m/s", 3);
  }
  return str_tmp;
}

//= s2e::environment::CelestialInformation::GetLogValue
std::string CelestialInformation_GetLogValue(CelestialInformation* self) {
  std::string str_tmp = "";
  for (unsigned int i = 0; i < self->number_of_selected_bodies_; i++) {
    for (int j = 0; j < 3; j++) {
      str_tmp += logger::WriteScalar(self->celestial_body_position_from_center_i_m_[i * 3 + j]);
    }
    for (int j = 0; j < 3; j++) {
      str_tmp += logger::WriteScalar(self->celestial_body_velocity_from_center_i_m_s_[i * 3 + j]);
    }
  }
  return str_tmp;
}

//= s2e::environment::GnssSatellites::GetLogHeader
std::string GnssSatellites_GetLogHeader(GnssSatellites* self) {
  std::string str_tmp = "";

  // TODO: Add log output for other navigation systems
  for (size_t gps_index = 0; gps_index < gnss::kNumberOfGpsSatellite; gps_index++) {
    str_tmp += logger::WriteVector("GPS" + std::to_string(gps_index) + "_position", "ecef", "m", 3);
    str_tmp += logger::WriteScalar("GPS" + std::to_string(gps_index) + "_clock_offset", "s");
  }

  return str_tmp;
}

//= s2e::environment::GnssSatellites::GetLogValue
std::string GnssSatellites_GetLogValue(GnssSatellites* self) {
  std::string str_tmp = "";

  for (size_t gps_index = 0; gps_index < gnss::kNumberOfGpsSatellite; gps_index++) {
    str_tmp += logger::WriteVector(self->GetPosition_ecef_m(gps_index), 16);
    str_tmp += logger::WriteScalar(self->GetClock_s(gps_index));
  }

  return str_tmp;
}

//= s2e::environment::HipparcosCatalogue::GetLogHeader
std::string HipparcosCatalogue_GetLogHeader(HipparcosCatalogue* self) {
  std::string str_tmp = "";

  return str_tmp;
}

//= s2e::environment::HipparcosCatalogue::GetLogValue
std::string HipparcosCatalogue_GetLogValue(HipparcosCatalogue* self) {
  std::string str_tmp = "";

  return str_tmp;
}

//= s2e::environment::SimulationTime::GetLogHeader
std::string SimulationTime_GetLogHeader(SimulationTime* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar("elapsed_time", "s");
  str_tmp += logger::WriteScalar("time", "UTC");

  return str_tmp;
}

//= s2e::environment::SimulationTime::GetLogValue
std::string SimulationTime_GetLogValue(SimulationTime* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar(self->elapsed_time_sec_);

  const char kSize = 100;
  char ymdhms[kSize];
  double sec_floor = floor(self->current_utc_.second * 1e3) / 1e3;

  snprintf(ymdhms, kSize, "%4d/%02d/%02d %02d:%02d:%.3f,", self->current_utc_.year, self->current_utc_.month, self->current_utc_.day, self->current_utc_.hour,
           self->current_utc_.minute, sec_floor);
  str_tmp += ymdhms;

  return str_tmp;
}

//= s2e::environment::Atmosphere::GetLogValue
std::string Atmosphere_GetLogValue(Atmosphere* self) {
  std::string str_tmp = "";
  str_tmp += logger::WriteScalar(self->air_density_kg_m3_);

  return str_tmp;
}

//= s2e::environment::Atmosphere::GetLogHeader
std::string Atmosphere_GetLogHeader(Atmosphere* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar("air_density_at_spacecraft_position", "kg/m3");

  return str_tmp;
}

//= s2e::environment::EarthAlbedo::GetLogHeader
std::string EarthAlbedo_GetLogHeader(EarthAlbedo* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar("earth_albedo_factor");
  str_tmp += logger::WriteScalar("earth_albedo_W_m2");

  return str_tmp;
}

//= s2e::environment::EarthAlbedo::GetLogValue
std::string EarthAlbedo_GetLogValue(EarthAlbedo* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar(self->earth_albedo_factor_);
  str_tmp += logger::WriteScalar(self->earth_albedo_W_m2_);

  return str_tmp;
}

//= s2e::environment::EarthInfrared::GetLogHeader
std::string EarthInfrared_GetLogHeader(EarthInfrared* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar("earth_infrared_temperature_hot_side_K");
  str_tmp += logger::WriteScalar("earth_infrared_temperature_cold_side_K");
  str_tmp += logger::WriteScalar("earth_infrared_W_m2");

  return str_tmp;
}

//= s2e::environment::EarthInfrared::GetLogValue
std::string EarthInfrared_GetLogValue(EarthInfrared* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar(self->earth_infrared_temperature_hot_side_K_);
  str_tmp += logger::WriteScalar(self->earth_infrared_temperature_cold_side_K_);
  str_tmp += logger::WriteScalar(self->earth_infrared_W_m2_);

  return str_tmp;
}

//= s2e::environment::GeomagneticField::GetLogHeader
std::string GeomagneticField_GetLogHeader(GeomagneticField* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector("geomagnetic_field_at_spacecraft_position", "i", "nT", 3);
  str_tmp += logger::WriteVector("geomagnetic_field_at_spacecraft_position", "b", "nT", 3);

  return str_tmp;
}

//= s2e::environment::GeomagneticField::GetLogValue
std::string GeomagneticField_GetLogValue(GeomagneticField* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteVector(self->magnetic_field_i_nT_);
  str_tmp += logger::WriteVector(self->magnetic_field_b_nT_);

  return str_tmp;
}

//= s2e::environment::LocalCelestialInformation::GetLogHeader
std::string LocalCelestialInformation_GetLogHeader(LocalCelestialInformation* self) {
  SpiceBoolean found;
  const int maxlen = 100;
  char namebuf[maxlen];
  std::string str_tmp = "";
  for (int i = 0; i < self->global_celestial_information_->GetNumberOfSelectedBodies(); i++) {
    SpiceInt planet_id = self->global_celestial_information_->GetSelectedBodyIds()[i];
    // Acquisition of body name from id
    bodc2n_c(planet_id, maxlen, namebuf, (SpiceBoolean*)&found);
    std::string name = namebuf;

    std::locale loc = std::locale::classic();
    std::transform(name.begin(), name.end(), name.begin(), [loc](char c) { return std::tolower(c, loc); });

    std::string body_pos = name + "_position_from_spacecraft";
    std::string body_vel = name + "_velocity_from_spacecraft";
    str_tmp += logger::WriteVector(body_pos, "b", "m", 3);
    str_tmp += logger::WriteVector(body_vel, "b", "m/s", 3);
  }
  return str_tmp;
}

//= s2e::environment::LocalCelestialInformation::GetLogValue
std::string LocalCelestialInformation_GetLogValue(LocalCelestialInformation* self) {
  std::string str_tmp = "";
  for (int i = 0; i < self->global_celestial_information_->GetNumberOfSelectedBodies(); i++) {
    for (int j = 0; j < 3; j++) {
      str_tmp += logger::WriteScalar(self->celestial_body_position_from_spacecraft_b_m_[i * 3 + j]);
    }
    for (int j = 0; j < 3; j++) {
      str_tmp += logger::WriteScalar(self->celestial_body_velocity_from_spacecraft_b_m_s_[i * 3 + j]);
    }
  }
  return str_tmp;
}

//= s2e::environment::SolarRadiationPressureEnvironment::GetLogHeader
std::string SolarRadiationPressureEnvironment_GetLogHeader(SolarRadiationPressureEnvironment* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar("solar_radiation_pressure_at_spacecraft_position", "N/m2");
  str_tmp += logger::WriteScalar("shadow_coefficient_at_spacecraft_position");

  return str_tmp;
}

//= s2e::environment::SolarRadiationPressureEnvironment::GetLogValue
std::string SolarRadiationPressureEnvironment_GetLogValue(SolarRadiationPressureEnvironment* self) {
  std::string str_tmp = "";

  str_tmp += logger::WriteScalar(self->solar_radiation_pressure_N_m2_ * self->shadow_coefficient_);
  str_tmp += logger::WriteScalar(self->shadow_coefficient_);

  return str_tmp;
}
}

namespace s2e::simulation::ref {
//= s2e::simulation::SimulationCase::GetLogHeader
std::string SimulationCase_GetLogHeader(SimulationCase* self) {
  std::string str_tmp = "";

  return str_tmp;
}

//= s2e::simulation::SimulationCase::GetLogValue
std::string SimulationCase_GetLogValue(SimulationCase* self) {
  std::string str_tmp = "";

  return str_tmp;
}

//= s2e::simulation::RelativeInformation::GetLogHeader
std::string RelativeInformation_GetLogHeader(RelativeInformation* self) {
  std::string str_tmp = "";
  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(
          "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m", 3);
    }
  }

  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(
          "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m/s", 3);
    }
  }

  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(
          "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m", 3);
    }
  }

  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(
          "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m/s", 3);
    }
  }

  return str_tmp;
}

//= s2e::simulation::RelativeInformation::GetLogValue
std::string RelativeInformation_GetLogValue(RelativeInformation* self) {
  std::string str_tmp = "";
  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(self->GetRelativePosition_i_m(target_spacecraft_id, reference_spacecraft_id));
    }
  }

  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(self->GetRelativeVelocity_i_m_s(target_spacecraft_id, reference_spacecraft_id));
    }
  }

  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(self->GetRelativePosition_rtn_m(target_spacecraft_id, reference_spacecraft_id));
    }
  }

  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
      str_tmp += logger::WriteVector(self->GetRelativeVelocity_rtn_m_s(target_spacecraft_id, reference_spacecraft_id));
    }
  }

  return str_tmp;
}
}

namespace s2e::ground_station::ref {
//= s2e::ground_station::GroundStation::GetLogHeader
std::string GroundStation_GetLogHeader(GroundStation* self) {
  std::string str_tmp = "";

  std::string head = "ground_station" + std::to_string(self->ground_station_id_) + "_";
  for (unsigned int i = 0; i < self->number_of_spacecraft_; i++) {
    std::string legend = head + "sc" + std::to_string(i) + "_visible_flag";
    str_tmp += logger::WriteScalar(legend);
  }
  str_tmp += logger::WriteVector("ground_station_position", "eci", "m", 3);
  return str_tmp;
}

//= s2e::ground_station::GroundStation::GetLogValue
std::string GroundStation_GetLogValue(GroundStation* self) {
  std::string str_tmp = "";

  for (unsigned int i = 0; i < self->number_of_spacecraft_; i++) {
    str_tmp += logger::WriteScalar(self->is_visible_.at(i));
  }
  str_tmp += logger::WriteVector(self->position_i_m_);
  return str_tmp;
}
}


// ---------------------------------------------------------------- logger/log_utility.hpp
namespace s2e::logger::ref {
//= s2e::logger::WriteScalar(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>)
std::string Label_WriteScalar(const std::string name, const std::string unit) { return name + "[" + unit + "],"; }

//= s2e::logger::WriteScalar(constdouble,constint)
std::string Double_WriteScalar(const double scalar, const int precision) {
  std::stringstream str_tmp;
  str_tmp << std::setprecision(precision) << scalar << ",";
  return str_tmp.str();
}

//= s2e::logger::WriteVector(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constunsignedlong)
std::string Label_WriteVector(const std::string name, const std::string frame, const std::string unit, const size_t length) {
  std::stringstream str_tmp;
  std::string axis[3] = {"_x", "_y", "_z"};
  for (size_t i = 0; i < length; i++) {
    if (length == 3) {
      str_tmp << name << "_" << frame << axis[i] << "[" << unit << "],";
    } else {
      str_tmp << name << "_" << frame << "(" << i << ")"
              << "[" << unit << "],";
    }
  }
  return str_tmp.str();
}

//= s2e::logger::WriteScalar(constbool,constint)
std::string bool_WriteScalar(const bool scalar, const int precision) {
  std::stringstream str_tmp;
  str_tmp << std::setprecision(precision) << scalar << ",";
  return str_tmp.str();
}

//= s2e::logger::WriteScalar(constint,constint)
std::string int_WriteScalar(const int scalar, const int precision) {
  std::stringstream str_tmp;
  str_tmp << std::setprecision(precision) << scalar << ",";
  return str_tmp.str();
}

//= s2e::logger::WriteScalar(constunsignedint,constint)
std::string unsignedint_WriteScalar(const unsigned int scalar, const int precision) {
  std::stringstream str_tmp;
  str_tmp << std::setprecision(precision) << scalar << ",";
  return str_tmp.str();
}

//= s2e::logger::WriteScalar(constunsignedlong,constint)
std::string unsignedlong_WriteScalar(const unsigned long scalar, const int precision) {
  std::stringstream str_tmp;
  str_tmp << std::setprecision(precision) << scalar << ",";
  return str_tmp.str();
}

//= s2e::logger::WriteScalar(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constint)
std::string string_WriteScalar(const std::string scalar, const int precision) {
  std::stringstream str_tmp;
  str_tmp << std::setprecision(precision) << scalar << ",";
  return str_tmp.str();
}

//= s2e::logger::WriteVector(consts2e::math::Vector<2,double>,constint)
std::string Vector2_WriteVector(const math::Vector<2> vector, const int precision) {
  std::stringstream str_tmp;
  for (size_t n = 0; n < 2; n++) {
    str_tmp << std::setprecision(precision) << vector[n] << ",";
  }
  return str_tmp.str();
}

//= s2e::logger::WriteVector(consts2e::math::Vector<3,double>,constint)
std::string Vector3_WriteVector(const math::Vector<3> vector, const int precision) {
  std::stringstream str_tmp;
  for (size_t n = 0; n < 3; n++) {
    str_tmp << std::setprecision(precision) << vector[n] << ",";
  }
  return str_tmp.str();
}

//= s2e::logger::WriteMatrix(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constunsignedlong,constunsignedlong)
std::string Label_WriteMatrix(const std::string name, const std::string frame, const std::string unit, const size_t row_length,
                              const size_t column_length) {
  std::stringstream str_tmp;
  for (size_t i = 0; i < row_length; i++) {
    for (size_t j = 0; j < column_length; j++) {
      str_tmp << name << "_" << frame << "(" << i << j << ")"
              << "[" << unit << "],";
    }
  }
  return str_tmp.str();
}

//= s2e::logger::WriteMatrix(consts2e::math::Matrix<3,3,double>,constint)
std::string Matrix33_WriteMatrix(const math::Matrix<3, 3> matrix, const int precision) {
  std::stringstream str_tmp;
  for (size_t n = 0; n < 3; n++) {
    for (size_t m = 0; m < 3; m++) {
      str_tmp << std::setprecision(precision) << matrix[n][m] << ",";
    }
  }
  return str_tmp.str();
}

//= s2e::logger::WriteQuaternion(consts2e::math::Quaternion,constint)
std::string _WriteQuaternion(const math::Quaternion quaternion, const int precision) {
  std::stringstream str_tmp;
  for (size_t i = 0; i < 4; i++) {
    str_tmp << std::setprecision(precision) << quaternion[i] << ",";
  }
  return str_tmp.str();
}

//= s2e::logger::WriteQuaternion(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>)
std::string Label_WriteQuaternion(const std::string name, const std::string frame) {
  std::stringstream str_tmp;
  std::string axis[4] = {"_x", "_y", "_z", "_w"};
  for (size_t i = 0; i < 4; i++) {
    str_tmp << name << "_" << frame << axis[i] << ",";
  }
  return str_tmp.str();
}
}
