// Reference specification for C35 (parsed, never compiled to code or run).
#include "base.hpp"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include <string>
#include <vector>
#include <cassert>
#include <SpiceUsr.h>
#include "environment/global/celestial_information.hpp"
#include "environment/global/earth_rotation.hpp"
#include "environment/global/global_environment.hpp"
#include "environment/global/hipparcos_catalogue.hpp"
#include "environment/global/moon_rotation.hpp"
#include "environment/global/physical_constants.hpp"
#include "logger/log_utility.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/planet_rotation/moon_rotation_utilities.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
// ---------------------------------------------------------------- environment/global/celestial_information.cpp
namespace s2e::environment::ref {
//= s2e::environment::CelestialInformation::CelestialInformation(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constunsignedint,int*,conststd::vector<std::basic_string<char,std::char_traits<char>,std::allocator<char>>,std::allocator<std::basic_string<char,std::char_traits<char>,std::allocator<char>>>>)
void CelestialInformation_Ctor(CelestialInformation* self, const std::string inertial_frame_name, const std::string aberration_correction_setting, const std::string center_body_name, const unsigned int number_of_selected_body, int* selected_body_ids, const std::vector<std::string> rotation_mode_list) {
  self->number_of_selected_bodies_ = number_of_selected_body;
  self->selected_body_ids_ = selected_body_ids;
  self->inertial_frame_name_ = inertial_frame_name;
  self->center_body_name_ = center_body_name;
  self->aberration_correction_setting_ = aberration_correction_setting;
  self->rotation_mode_list_ = rotation_mode_list;

  // Initialize list
  unsigned int num_of_state = self->number_of_selected_bodies_ * 3;
  self->celestial_body_position_from_center_i_m_ = new double[num_of_state];
  self->celestial_body_velocity_from_center_i_m_s_ = new double[num_of_state];
  self->celestial_body_gravity_constant_m3_s2_ = new double[self->number_of_selected_bodies_];
  self->celestial_body_mean_radius_m_ = new double[self->number_of_selected_bodies_];
  self->celestial_body_planetographic_radii_m_ = new double[num_of_state];

  // Acquisition of gravity constant
  for (unsigned int i = 0; i < self->number_of_selected_bodies_; i++) {
    SpiceInt planet_id = self->selected_body_ids_[i];
    SpiceInt dim;
    SpiceDouble gravity_constant_km3_s2;
    bodvcd_c(planet_id, "GM", 1, &dim, &gravity_constant_km3_s2);
    // Convert unit [km^3/s^2] to [m^3/s^2]
    self->celestial_body_gravity_constant_m3_s2_[i] = gravity_constant_km3_s2 * 1E+9;
  }

  // Acquisition of radius
  for (unsigned int i = 0; i < self->number_of_selected_bodies_; i++) {
    SpiceInt planet_id = self->selected_body_ids_[i];
    SpiceInt dim;
    SpiceDouble radii_km[3];

    bodvcd_c(planet_id, "RADII", 3, &dim, (SpiceDouble*)radii_km);
    for (int j = 0; j < 3; j++) {
      self->celestial_body_planetographic_radii_m_[i * 3 + j] = radii_km[j] * 1000.0;
    }

    double rx = self->celestial_body_planetographic_radii_m_[i * 3];
    double ry = self->celestial_body_planetographic_radii_m_[i * 3 + 1];
    double rz = self->celestial_body_planetographic_radii_m_[i * 3 + 2];

    self->celestial_body_mean_radius_m_[i] = pow(rx * ry * rz, 1.0 / 3.0);
  }

  // Initialize rotation
  self->earth_rotation_ = new EarthRotation(ConvertEarthRotationMode(self->GetRotationMode("EARTH")));
  self->moon_rotation_ = new MoonRotation(*self, ConvertMoonRotationMode(self->GetRotationMode("MOON")));
}
//= s2e::environment::CelestialInformation::CelestialInformation(consts2e::environment::CelestialInformation&)
void CelestialInformation_Ctor2(CelestialInformation* self, const CelestialInformation& obj) {
  self->number_of_selected_bodies_ = obj.number_of_selected_bodies_;
  self->inertial_frame_name_ = obj.inertial_frame_name_;
  self->center_body_name_ = obj.center_body_name_;
  self->aberration_correction_setting_ = obj.aberration_correction_setting_;
  self->rotation_mode_list_ = obj.rotation_mode_list_;

  unsigned int num_of_state = self->number_of_selected_bodies_ * 3;

  self->selected_body_ids_ = new int[self->number_of_selected_bodies_];
  self->celestial_body_position_from_center_i_m_ = new double[num_of_state];
  self->celestial_body_velocity_from_center_i_m_s_ = new double[num_of_state];
  self->celestial_body_gravity_constant_m3_s2_ = new double[self->number_of_selected_bodies_];
  self->celestial_body_mean_radius_m_ = new double[self->number_of_selected_bodies_];
  self->celestial_body_planetographic_radii_m_ = new double[num_of_state];

  size_t size_i = sizeof(int);
  memcpy(self->selected_body_ids_, obj.selected_body_ids_, size_i * self->number_of_selected_bodies_);

  size_t size_d = sizeof(double);
  memcpy(self->celestial_body_position_from_center_i_m_, obj.celestial_body_position_from_center_i_m_, size_d * num_of_state);
  memcpy(self->celestial_body_velocity_from_center_i_m_s_, obj.celestial_body_velocity_from_center_i_m_s_, size_d * num_of_state);
  memcpy(self->celestial_body_gravity_constant_m3_s2_, obj.celestial_body_gravity_constant_m3_s2_, size_d * self->number_of_selected_bodies_);
  memcpy(self->celestial_body_mean_radius_m_, obj.celestial_body_mean_radius_m_, size_d * self->number_of_selected_bodies_);
  memcpy(self->celestial_body_planetographic_radii_m_, obj.celestial_body_planetographic_radii_m_, size_d * num_of_state);
  self->earth_rotation_ = new EarthRotation(*obj.earth_rotation_);
  self->moon_rotation_ = new MoonRotation(*self, ConvertMoonRotationMode(self->GetRotationMode("MOON")));
}
//= s2e::environment::CelestialInformation::UpdateAllObjectsInformation
void CelestialInformation_UpdateAllObjectsInformation(CelestialInformation* self, const SimulationTime& simulation_time) {
  // Update celestial body orbit
  for (unsigned int i = 0; i < self->number_of_selected_bodies_; i++) {
    SpiceInt planet_id = self->selected_body_ids_[i];

    // Acquisition of body name from id
    SpiceBoolean found;
    const int kMaxNameLength = 100;
    char name_buffer[kMaxNameLength];
    bodc2n_c(planet_id, kMaxNameLength, name_buffer, (SpiceBoolean*)&found);

    // Acquisition of position and velocity
    SpiceDouble orbit_buffer_km[6];
    self->GetPlanetOrbit(name_buffer, simulation_time.GetCurrentEphemerisTime(), (SpiceDouble*)orbit_buffer_km);
    // Convert unit [km], [km/s] to [m], [m/s]
    for (int j = 0; j < 3; j++) {
      self->celestial_body_position_from_center_i_m_[i * 3 + j] = orbit_buffer_km[j] * 1000.0;
      self->celestial_body_velocity_from_center_i_m_s_[i * 3 + j] = orbit_buffer_km[j + 3] * 1000.0;
    }
  }

  // Update earth rotation
  self->earth_rotation_->Update(simulation_time.GetCurrentTime_jd());
  // Update moon rotation
  self->moon_rotation_->Update(simulation_time);
}
//= s2e::environment::CelestialInformation::CalcBodyIdFromName
int CelestialInformation_CalcBodyIdFromName(CelestialInformation* self, const char* body_name) {
  int index = 0;
  SpiceInt planet_id;
  SpiceBoolean found;

  // Acquisition of ID from body name
  bodn2c_c(body_name, (SpiceInt*)&planet_id, (SpiceBoolean*)&found);
  for (unsigned int i = 0; i < self->number_of_selected_bodies_; i++) {
    if (self->selected_body_ids_[i] == planet_id) {
      index = i;
      break;
    }
  }
  return index;
}
//= s2e::environment::CelestialInformation::GetPlanetOrbit
void CelestialInformation_GetPlanetOrbit(CelestialInformation* self, const char* planet_name, const double et, double orbit[6]) {
  // Add `BARYCENTER` if needed
  std::string planet_name_string = planet_name;
  if (strcmp(planet_name, "MARS") == 0 || strcmp(planet_name, "JUPITER") == 0 || strcmp(planet_name, "SATURN") == 0 ||
      strcmp(planet_name, "URANUS") == 0 || strcmp(planet_name, "NEPTUNE") == 0 || strcmp(planet_name, "PLUTO") == 0) {
    planet_name_string += "_BARYCENTER";
  }

  // Get orbit
  SpiceDouble lt;
  spkezr_c((ConstSpiceChar*)planet_name_string.c_str(), (SpiceDouble)et, (ConstSpiceChar*)self->inertial_frame_name_.c_str(),
           (ConstSpiceChar*)self->aberration_correction_setting_.c_str(), (ConstSpiceChar*)self->center_body_name_.c_str(), (SpiceDouble*)orbit,
           (SpiceDouble*)&lt);
  return;
}
//= s2e::environment::InitCelestialInformation
CelestialInformation* _InitCelestialInformation(std::string file_name) {
  setting_file_reader::IniAccess ini_file(file_name);
  const char* section = "CELESTIAL_INFORMATION";
  const char* furnsh_section = "CSPICE_KERNELS";

  // Read SPICE setting
  std::string inertial_frame = ini_file.ReadString(section, "inertial_frame");
  std::string aber_cor = ini_file.ReadString(section, "aberration_correction");
  std::string center_obj = ini_file.ReadString(section, "center_object");

  // SPICE Furnsh
  std::vector<std::string> keywords = {"tls", "tpc1", "tpc2", "tpc3", "bsp"};
  for (size_t i = 0; i < keywords.size(); i++) {
    std::string fname = ini_file.ReadString(furnsh_section, keywords[i].c_str());
    furnsh_c(fname.c_str());
  }

  // Initialize celestial body list
  const int num_of_selected_body = ini_file.ReadInt(section, "number_of_selected_body");
  int* selected_body = new int[num_of_selected_body];
  for (int i = 0; i < num_of_selected_body; i++) {
    // Convert body name to SPICE ID
    std::string selected_body_i = "selected_body_name(" + std::to_string(i) + ")";
    char selected_body_temp[30];
    ini_file.ReadChar(section, selected_body_i.c_str(), 30, selected_body_temp);
    SpiceInt planet_id;
    SpiceBoolean found;
    bodn2c_c(selected_body_temp, (SpiceInt*)&planet_id, (SpiceBoolean*)&found);

    // If the object specified in the ini file is not found, exit the program.
    assert(found == SPICETRUE);

    selected_body[i] = planet_id;
  }

  // Read Rotation setting
  std::vector<std::string> rotation_mode_list = ini_file.ReadVectorString(section, "rotation_mode", num_of_selected_body);

  CelestialInformation* celestial_info;
  celestial_info = new CelestialInformation(inertial_frame, aber_cor, center_obj, num_of_selected_body, selected_body, rotation_mode_list);

  // log setting
  celestial_info->is_log_enabled_ = ini_file.ReadEnable(section, INI_LOG_LABEL);

  return celestial_info;
}
}

// ---------------------------------------------------------------- environment/global/celestial_information.hpp
namespace s2e::environment::ref {
//= s2e::environment::CelestialInformation::GetPositionFromCenter_i_m(constunsignedint)c
math::Vector<3> CelestialInformation_GetPositionFromCenter_i_m(CelestialInformation* self, const unsigned int id) {
    math::Vector<3> pos(0.0);
    if (id > self->number_of_selected_bodies_) return pos;
    for (int i = 0; i < 3; i++) pos[i] = self->celestial_body_position_from_center_i_m_[id * 3 + i];
    return pos;
  }
//= s2e::environment::CelestialInformation::GetPositionFromCenter_i_m(constchar*)c
math::Vector<3> CelestialInformation_GetPositionFromCenter_i_m2(CelestialInformation* self, const char* body_name) {
    int id = self->CalcBodyIdFromName(body_name);
    return self->GetPositionFromCenter_i_m(id);
  }
//= s2e::environment::CelestialInformation::GetPositionFromSelectedBody_i_m
math::Vector<3> CelestialInformation_GetPositionFromSelectedBody_i_m(CelestialInformation* self, const char* target_body_name, const char* reference_body_name) {
    int target_id = self->CalcBodyIdFromName(target_body_name);
    math::Vector<3> target_body_position_i_m = self->GetPositionFromCenter_i_m(target_id);
    int reference_id = self->CalcBodyIdFromName(reference_body_name);
    math::Vector<3> reference_body_position_i_m = self->GetPositionFromCenter_i_m(reference_id);

    return target_body_position_i_m - reference_body_position_i_m;
  }
//= s2e::environment::CelestialInformation::GetVelocityFromCenter_i_m_s(constunsignedint)c
math::Vector<3> CelestialInformation_GetVelocityFromCenter_i_m_s(CelestialInformation* self, const unsigned int id) {
    math::Vector<3> vel(0.0);
    if (id > self->number_of_selected_bodies_) return vel;
    for (int i = 0; i < 3; i++) vel[i] = self->celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
    return vel;
  }
//= s2e::environment::CelestialInformation::GetVelocityFromCenter_i_m_s(constchar*)c
math::Vector<3> CelestialInformation_GetVelocityFromCenter_i_m_s2(CelestialInformation* self, const char* body_name) {
    int id = self->CalcBodyIdFromName(body_name);
    return self->GetVelocityFromCenter_i_m_s(id);
  }
//= s2e::environment::CelestialInformation::GetVelocityFromSelectedBody_i_m_s
math::Vector<3> CelestialInformation_GetVelocityFromSelectedBody_i_m_s(CelestialInformation* self, const char* target_body_name, const char* reference_body_name) {
    int target_id = self->CalcBodyIdFromName(target_body_name);
    math::Vector<3> target_body_velocity_i_m_s = self->GetVelocityFromCenter_i_m_s(target_id);
    int reference_id = self->CalcBodyIdFromName(reference_body_name);
    math::Vector<3> reference_body_velocity_i_m_s = self->GetVelocityFromCenter_i_m_s(reference_id);

    return target_body_velocity_i_m_s - reference_body_velocity_i_m_s;
  }
//= s2e::environment::CelestialInformation::GetGravityConstant_m3_s2
double CelestialInformation_GetGravityConstant_m3_s2(CelestialInformation* self, const char* body_name) {
    int index = self->CalcBodyIdFromName(body_name);
    return self->celestial_body_gravity_constant_m3_s2_[index];
  }
//= s2e::environment::CelestialInformation::GetCenterBodyGravityConstant_m3_s2
double CelestialInformation_GetCenterBodyGravityConstant_m3_s2(CelestialInformation* self) { return self->GetGravityConstant_m3_s2(self->center_body_name_.c_str()); }
//= s2e::environment::CelestialInformation::GetRadii_m
math::Vector<3> CelestialInformation_GetRadii_m(CelestialInformation* self, const unsigned int id) {
    math::Vector<3> radii(0.0);
    if (id > self->number_of_selected_bodies_) return radii;
    for (int i = 0; i < 3; i++) radii[i] = self->celestial_body_planetographic_radii_m_[id * 3 + i];
    return radii;
  }
//= s2e::environment::CelestialInformation::GetRadiiFromName_m
math::Vector<3> CelestialInformation_GetRadiiFromName_m(CelestialInformation* self, const char* body_name) {
    int id = self->CalcBodyIdFromName(body_name);
    return self->GetRadii_m(id);
  }
//= s2e::environment::CelestialInformation::GetMeanRadiusFromName_m
double CelestialInformation_GetMeanRadiusFromName_m(CelestialInformation* self, const char* body_name) {
    int index = self->CalcBodyIdFromName(body_name);
    return self->celestial_body_mean_radius_m_[index];
  }
//= s2e::environment::CelestialInformation::GetNumberOfSelectedBodies
int CelestialInformation_GetNumberOfSelectedBodies(CelestialInformation* self) { return self->number_of_selected_bodies_; }
//= s2e::environment::CelestialInformation::GetSelectedBodyIds
int* CelestialInformation_GetSelectedBodyIds(CelestialInformation* self) { return self->selected_body_ids_; }
//= s2e::environment::CelestialInformation::GetCenterBodyName
std::string CelestialInformation_GetCenterBodyName(CelestialInformation* self) { return self->center_body_name_; }
//= s2e::environment::CelestialInformation::GetEarthRotation
EarthRotation& CelestialInformation_GetEarthRotation(CelestialInformation* self) { return *self->earth_rotation_; }
//= s2e::environment::CelestialInformation::GetMoonRotation
MoonRotation& CelestialInformation_GetMoonRotation(CelestialInformation* self) { return *self->moon_rotation_; }
//= s2e::environment::CelestialInformation::GetRotationMode
std::string CelestialInformation_GetRotationMode(CelestialInformation* self, const char* body_name) {
    size_t id = self->CalcBodyIdFromName(body_name);
    if (id >= self->number_of_selected_bodies_) return "Idle";
    return self->rotation_mode_list_[id];
  }
}

// ---------------------------------------------------------------- environment/global/earth_rotation.cpp
namespace s2e::environment::ref {
//= s2e::environment::EarthRotation::EarthRotation
void EarthRotation_Ctor(EarthRotation* self, const EarthRotationMode rotation_mode) {
  self->rotation_mode_ = rotation_mode;

  self->dcm_j2000_to_ecef_ = math::MakeIdentityMatrix<3>();
  self->dcm_teme_to_ecef_ = self->dcm_j2000_to_ecef_;
  self->InitializeParameters();
}
//= s2e::environment::EarthRotation::InitializeParameters
void EarthRotation_InitializeParameters(EarthRotation* self) {
  if (self->rotation_mode_ == EarthRotationMode::kSimple) {
    // For Simple mode, we don't need initialization of the coefficients
  } else if (self->rotation_mode_ == EarthRotationMode::kFull) {
    // For Full mode, initialize the coefficients
    // The hard coded values are consistent with the reference document. The unit deg and rad are mixed.

    // Coefficients to compute mean obliquity of the ecliptic
    // The actual unit of the coefficients are [rad/century^i], where i is the index of the array
    self->c_epsilon_rad_[0] = 23.4392911 * math::deg_to_rad;      // [rad]
    self->c_epsilon_rad_[1] = -46.8150000 * math::arcsec_to_rad;  // [rad/century]
    self->c_epsilon_rad_[2] = -5.9000e-4 * math::arcsec_to_rad;   // [rad/century^2]
    self->c_epsilon_rad_[3] = 1.8130e-3 * math::arcsec_to_rad;    // [rad/century^3]

    // Coefficients to compute Delaunay angles
    // The actual unit of the coefficients are [rad/century^i], where i is the index of the array
    self->c_lm_rad_[0] = 134.96340251 * math::deg_to_rad;            // [rad]
    self->c_lm_rad_[1] = 1717915923.21780000 * math::arcsec_to_rad;  // [rad/century]
    self->c_lm_rad_[2] = 31.87920000 * math::arcsec_to_rad;          // [rad/century^2]
    self->c_lm_rad_[3] = 0.05163500 * math::arcsec_to_rad;           // [rad/century^3]
    self->c_lm_rad_[4] = -0.00024470 * math::arcsec_to_rad;          // [rad/century^4]

    self->c_ls_rad_[0] = 357.52910918 * math::deg_to_rad;           // [rad]
    self->c_ls_rad_[1] = 129596581.04810000 * math::arcsec_to_rad;  // [rad/century]
    self->c_ls_rad_[2] = -0.55320000 * math::arcsec_to_rad;         // [rad/century^2]
    self->c_ls_rad_[3] = 0.00013600 * math::arcsec_to_rad;          // [rad/century^3]
    self->c_ls_rad_[4] = -0.00001149 * math::arcsec_to_rad;         // [rad/century^4]

    self->c_f_rad_[0] = 93.27209062 * math::deg_to_rad;             // [rad]
    self->c_f_rad_[1] = 1739527262.84780000 * math::arcsec_to_rad;  // [rad/century]
    self->c_f_rad_[2] = -12.75120000 * math::arcsec_to_rad;         // [rad/century^2]
    self->c_f_rad_[3] = -0.00103700 * math::arcsec_to_rad;          // [rad/century^3]
    self->c_f_rad_[4] = 0.00000417 * math::arcsec_to_rad;           // [rad/century^4]

    self->c_d_rad_[0] = 297.85019547 * math::deg_to_rad;            // [rad]
    self->c_d_rad_[1] = 1602961601.20900000 * math::arcsec_to_rad;  // [rad/century]
    self->c_d_rad_[2] = -6.37060000 * math::arcsec_to_rad;          // [rad/century^2]
    self->c_d_rad_[3] = 0.00659300 * math::arcsec_to_rad;           // [rad/century^3]
    self->c_d_rad_[4] = -0.00003169 * math::arcsec_to_rad;          // [rad/century^4]

    self->c_o_rad_[0] = 125.04455501 * math::deg_to_rad;          // [rad]
    self->c_o_rad_[1] = -6962890.54310000 * math::arcsec_to_rad;  // [rad/century]
    self->c_o_rad_[2] = 7.47220000 * math::arcsec_to_rad;         // [rad/century^2]
    self->c_o_rad_[3] = 0.00770200 * math::arcsec_to_rad;         // [rad/century^3]
    self->c_o_rad_[4] = -0.00005939 * math::arcsec_to_rad;        // [rad/century^4]

    // Coefficients to compute nutation angles
    self->c_d_epsilon_rad_[0] = 9.2050 * math::arcsec_to_rad;   // [rad]
    self->c_d_epsilon_rad_[1] = 0.5730 * math::arcsec_to_rad;   // [rad]
    self->c_d_epsilon_rad_[2] = -0.0900 * math::arcsec_to_rad;  // [rad]
    self->c_d_epsilon_rad_[3] = 0.0980 * math::arcsec_to_rad;   // [rad]
    self->c_d_epsilon_rad_[4] = 0.0070 * math::arcsec_to_rad;   // [rad]
    self->c_d_epsilon_rad_[5] = -0.0010 * math::arcsec_to_rad;  // [rad]
    self->c_d_epsilon_rad_[6] = 0.0220 * math::arcsec_to_rad;   // [rad]
    self->c_d_epsilon_rad_[7] = 0.0130 * math::arcsec_to_rad;   // [rad]
    self->c_d_epsilon_rad_[8] = -0.0100 * math::arcsec_to_rad;  // [rad]

    self->c_d_psi_rad_[0] = -17.2060 * math::arcsec_to_rad;  // [rad]
    self->c_d_psi_rad_[1] = -1.3170 * math::arcsec_to_rad;   // [rad]
    self->c_d_psi_rad_[2] = 0.2070 * math::arcsec_to_rad;    // [rad]
    self->c_d_psi_rad_[3] = -0.2280 * math::arcsec_to_rad;   // [rad]
    self->c_d_psi_rad_[4] = 0.1480 * math::arcsec_to_rad;    // [rad]
    self->c_d_psi_rad_[5] = 0.0710 * math::arcsec_to_rad;    // [rad]
    self->c_d_psi_rad_[6] = -0.0520 * math::arcsec_to_rad;   // [rad]
    self->c_d_psi_rad_[7] = -0.0300 * math::arcsec_to_rad;   // [rad]
    self->c_d_psi_rad_[8] = 0.0220 * math::arcsec_to_rad;    // [rad]

    // Coefficients to compute precession angle
    // The actual unit of the coefficients are [rad/century^i], where i is the index of the array
    self->c_zeta_rad_[0] = 2306.218100 * math::arcsec_to_rad;  // [rad/century]
    self->c_zeta_rad_[1] = 0.301880 * math::arcsec_to_rad;     // [rad/century^2]
    self->c_zeta_rad_[2] = 0.017998 * math::arcsec_to_rad;     // [rad/century^3]

    self->c_theta_rad_[0] = 2004.310900 * math::arcsec_to_rad;  // [rad/century]
    self->c_theta_rad_[1] = -0.426650 * math::arcsec_to_rad;    // [rad/century^2]
    self->c_theta_rad_[2] = -0.041833 * math::arcsec_to_rad;    // [rad/century^3]

    self->c_z_rad_[0] = 2306.218100 * math::arcsec_to_rad;  // [rad/century]
    self->c_z_rad_[1] = 1.094680 * math::arcsec_to_rad;     // [rad/century^2]
    self->c_z_rad_[2] = 0.018203 * math::arcsec_to_rad;     // [rad/century^3]
  } else {
    // If the rotation mode is neither Simple nor Full, disable the rotation calculation and make the DCM a unit matrix
    self->dcm_j2000_to_ecef_ = math::MakeIdentityMatrix<3>();
  }
}
//= s2e::environment::EarthRotation::Update
void EarthRotation_Update(EarthRotation* self, const double julian_date) {
  double gmst_rad = gstime(julian_date);  // It is a bit different with 長沢(Nagasawa)'s algorithm. TODO: Check the correctness

  if (self->rotation_mode_ == EarthRotationMode::kFull) {
    // Compute Julian date for terrestrial time
    double terrestrial_time_julian_day =
        julian_date + self->kDtUt1Utc_ * self->kSec2Day_;  // TODO: Check the correctness. Problem is that S2E doesn't have Gregorian calendar.

    // Compute nth power of julian century for terrestrial time.
    // The actual unit of tTT_century is [century^(i+1)], i is the index of the array
    double terrestrial_time_julian_century[4];
    terrestrial_time_julian_century[0] = (terrestrial_time_julian_day - self->kJulianDateJ2000_) / self->kDayJulianCentury_;
    for (int i = 0; i < 3; i++) {
      terrestrial_time_julian_century[i + 1] = terrestrial_time_julian_century[i] * terrestrial_time_julian_century[0];
    }

    math::Matrix<3, 3> dcm_precession;
    math::Matrix<3, 3> dcm_nutation;
    math::Matrix<3, 3> dcm_rotation;
    math::Matrix<3, 3> dcm_polar_motion;
    // Nutation + Precession
    dcm_precession = self->Precession(terrestrial_time_julian_century);
    dcm_nutation = self->Nutation(terrestrial_time_julian_century);  // epsilon_rad_, d_epsilon_rad_, d_psi_rad_ are updated in this procedure

    // Axial Rotation
    double equinox_rad = self->d_psi_rad_ * cos(self->epsilon_rad_ + self->d_epsilon_rad_);  // Equation of equinoxes [rad]
    double gast_rad = gmst_rad + equinox_rad;                              // Greenwich 'Apparent' Sidereal Time [rad]
    dcm_rotation = self->AxialRotation(gast_rad);
    // Polar motion (is not considered so far, even without polar motion, the result agrees well with the matlab reference)
    double x_p = 0.0;
    double y_p = 0.0;
    dcm_polar_motion = self->PolarMotion(x_p, y_p);

    // Total orientation
    self->dcm_j2000_to_ecef_ = dcm_polar_motion * dcm_rotation * dcm_nutation * dcm_precession;
  } else if (self->rotation_mode_ == EarthRotationMode::kSimple) {
    // In this case, only Axial Rotation is executed, with its argument replaced from G'A'ST to G'M'ST
    // FIXME: Not suitable when the center body is not the earth
    self->dcm_j2000_to_ecef_ = self->AxialRotation(gmst_rad);
  } else {
    // Leave the DCM as unit Matrix(diag{1,1,1})
    return;
  }
}
//= s2e::environment::EarthRotation::AxialRotation
math::Matrix<3, 3> EarthRotation_AxialRotation(EarthRotation* self, const double gast_rad) { return math::MakeRotationMatrixZ(gast_rad); }
//= s2e::environment::EarthRotation::Nutation
math::Matrix<3, 3> EarthRotation_Nutation(EarthRotation* self, const double (&t_tt_century)[4]) {
  // Mean obliquity of the ecliptic
  self->epsilon_rad_ = self->c_epsilon_rad_[0];
  for (int i = 0; i < 3; i++) {
    self->epsilon_rad_ += self->c_epsilon_rad_[i + 1] * t_tt_century[i];
  }

  // Compute five Delaunay angles(l=lm, l'=ls, F, D, Ω=O)
  // Mean anomaly of the moon
  double lm_rad = self->c_lm_rad_[0];
  for (int i = 0; i < 4; i++) {
    lm_rad += self->c_lm_rad_[i + 1] * t_tt_century[i];
  }
  // Mean anomaly of the sun
  double ls_rad = self->c_ls_rad_[0];
  for (int i = 0; i < 4; i++) {
    ls_rad += self->c_ls_rad_[i + 1] * t_tt_century[i];
  }
  // Mean longitude of the moon - mean longitude of ascending node of the moon
  double f_rad = self->c_f_rad_[0];
  for (int i = 0; i < 4; i++) {
    f_rad += self->c_f_rad_[i + 1] * t_tt_century[i];
  }
  // Mean elongation of the moon from the sun
  double d_rad = self->c_d_rad_[0];
  for (int i = 0; i < 4; i++) {
    d_rad += self->c_d_rad_[i + 1] * t_tt_century[i];
  }
  // Mean longitude of ascending node of the moon
  double o_rad = self->c_o_rad_[0];
  for (int i = 0; i < 4; i++) {
    o_rad += self->c_o_rad_[i + 1] * t_tt_century[i];
  }

  // Additional angles
  double l_rad = f_rad + o_rad;   // F + Ω
  double ld_rad = l_rad - d_rad;  // F + Ω - D

  // Compute luni-solar nutation
  // Nutation in obliquity
  self->d_psi_rad_ = self->c_d_psi_rad_[0] * sin(o_rad) + self->c_d_psi_rad_[1] * sin(2 * ld_rad) + self->c_d_psi_rad_[2] * sin(2 * o_rad) +
               self->c_d_psi_rad_[3] * sin(2 * l_rad) + self->c_d_psi_rad_[4] * sin(ls_rad);
  self->d_psi_rad_ = self->d_psi_rad_ + self->c_d_psi_rad_[5] * sin(lm_rad) + self->c_d_psi_rad_[6] * sin(2 * ld_rad + ls_rad) + self->c_d_psi_rad_[7] * sin(2 * l_rad + lm_rad) +
               self->c_d_psi_rad_[8] * sin(2 * ld_rad - ls_rad);

  // Nutation in longitude
  self->d_epsilon_rad_ = self->c_d_epsilon_rad_[0] * cos(o_rad) + self->c_d_epsilon_rad_[1] * cos(2 * ld_rad) + self->c_d_epsilon_rad_[2] * cos(2 * o_rad) +
                   self->c_d_epsilon_rad_[3] * cos(2 * l_rad) + self->c_d_epsilon_rad_[4] * cos(ls_rad);
  self->d_epsilon_rad_ = self->d_epsilon_rad_ + self->c_d_epsilon_rad_[5] * cos(lm_rad) + self->c_d_epsilon_rad_[6] * cos(2 * ld_rad + ls_rad) +
                   self->c_d_epsilon_rad_[7] * cos(2 * l_rad + lm_rad) + self->c_d_epsilon_rad_[8] * cos(2 * ld_rad - ls_rad);

  double epsi_mod_rad = self->epsilon_rad_ + self->d_epsilon_rad_;
  math::Matrix<3, 3> x_epsi_1st = math::MakeRotationMatrixX(self->epsilon_rad_);
  math::Matrix<3, 3> z_d_psi = math::MakeRotationMatrixZ(-self->d_psi_rad_);
  math::Matrix<3, 3> x_epsi_2nd = math::MakeRotationMatrixX(-epsi_mod_rad);

  math::Matrix<3, 3> dcm_nutation;
  dcm_nutation = x_epsi_2nd * z_d_psi * x_epsi_1st;

  return dcm_nutation;
}
//= s2e::environment::EarthRotation::Precession
math::Matrix<3, 3> EarthRotation_Precession(EarthRotation* self, const double (&t_tt_century)[4]) {
  // Compute precession angles(zeta, theta, z)
  double zeta_rad = 0.0;
  for (int i = 0; i < 3; i++) {
    zeta_rad += self->c_zeta_rad_[i] * t_tt_century[i];
  }
  double theta_rad = 0.0;
  for (int i = 0; i < 3; i++) {
    theta_rad += self->c_theta_rad_[i] * t_tt_century[i];
  }
  double z_rad = 0.0;
  for (int i = 0; i < 3; i++) {
    z_rad += self->c_z_rad_[i] * t_tt_century[i];
  }

  // Develop transformation matrix
  math::Matrix<3, 3> z_zeta = math::MakeRotationMatrixZ(-zeta_rad);
  math::Matrix<3, 3> y_theta = math::MakeRotationMatrixY(theta_rad);
  math::Matrix<3, 3> z_z = math::MakeRotationMatrixZ(-z_rad);

  math::Matrix<3, 3> dcm_precession;
  dcm_precession = z_z * y_theta * z_zeta;

  return dcm_precession;
}
//= s2e::environment::EarthRotation::PolarMotion
math::Matrix<3, 3> EarthRotation_PolarMotion(EarthRotation* self, const double x_p, const double y_p) {
  math::Matrix<3, 3> dcm_polar_motion;

  dcm_polar_motion[0][0] = 1.0;
  dcm_polar_motion[0][1] = 0.0;
  dcm_polar_motion[0][2] = -x_p;
  dcm_polar_motion[1][0] = 0.0;
  dcm_polar_motion[1][1] = 1.0;
  dcm_polar_motion[1][2] = -y_p;
  dcm_polar_motion[2][0] = x_p;
  dcm_polar_motion[2][1] = y_p;
  dcm_polar_motion[2][2] = 1.0;

  return dcm_polar_motion;
}
//= s2e::environment::ConvertEarthRotationMode
EarthRotationMode _ConvertEarthRotationMode(const std::string mode) {
  EarthRotationMode rotation_mode;
  if (mode == "IDLE") {
    rotation_mode = EarthRotationMode::kIdle;
  } else if (mode == "SIMPLE") {
    rotation_mode = EarthRotationMode::kSimple;
  } else if (mode == "FULL") {
    rotation_mode = EarthRotationMode::kFull;
  } else  // if rotation_mode is neither Idle, Simple, nor Full, set rotation_mode to Idle
  {
    rotation_mode = EarthRotationMode::kIdle;
  }

  return rotation_mode;
}
}

// ---------------------------------------------------------------- environment/global/earth_rotation.hpp
namespace s2e::environment::ref {
//= s2e::environment::EarthRotation::GetDcmJ2000ToEcef
math::Matrix<3, 3> EarthRotation_GetDcmJ2000ToEcef(EarthRotation* self) { return self->dcm_j2000_to_ecef_; }
//= s2e::environment::EarthRotation::GetDcmTemeToEcef
math::Matrix<3, 3> EarthRotation_GetDcmTemeToEcef(EarthRotation* self) { return self->dcm_teme_to_ecef_; }
}

// ---------------------------------------------------------------- environment/global/hipparcos_catalogue.cpp
namespace s2e::environment::ref {
//= s2e::environment::HipparcosCatalogue::HipparcosCatalogue
void HipparcosCatalogue_Ctor(HipparcosCatalogue* self, double max_magnitude, std::string catalogue_path) {
  self->IsCalcEnabled = true;
  self->max_magnitude_ = max_magnitude;
  self->catalogue_path_ = catalogue_path;
}
//= s2e::environment::HipparcosCatalogue::ReadContents
bool HipparcosCatalogue_ReadContents(HipparcosCatalogue* self, const std::string& file_name, const char delimiter) {
  if (!self->IsCalcEnabled) return false;

  std::ifstream ifs(file_name);
  if (!ifs.is_open()) {
    std::cerr << "file open error(hip_main.csv)";
    return false;
  }

  std::string title;
  ifs >> title;  // Skip title
  std::string line;
  while (ifs >> line) {
    HipparcosData hipparcos_data;

    std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
    std::istringstream streamline(line);

    streamline >> hipparcos_data.hipparcos_id >> hipparcos_data.visible_magnitude >> hipparcos_data.right_ascension_deg >>
        hipparcos_data.declination_deg;

    if (hipparcos_data.visible_magnitude > self->max_magnitude_) {
      return true;
    }  // Don't read stars darker than max_magnitude
    self->hipparcos_catalogue_.push_back(hipparcos_data);
  }

  return true;
}
//= s2e::environment::HipparcosCatalogue::GetStarDirection_i
math::Vector<3> HipparcosCatalogue_GetStarDirection_i(HipparcosCatalogue* self, size_t rank) {
  math::Vector<3> direction_i;
  double ra_rad = self->GetRightAscension_deg(rank) * math::deg_to_rad;
  double de_rad = self->GetDeclination_deg(rank) * math::deg_to_rad;

  direction_i[0] = cos(ra_rad) * cos(de_rad);
  direction_i[1] = sin(ra_rad) * cos(de_rad);
  direction_i[2] = sin(de_rad);

  return direction_i;
}
//= s2e::environment::HipparcosCatalogue::GetStarDirection_b
math::Vector<3> HipparcosCatalogue_GetStarDirection_b(HipparcosCatalogue* self, size_t rank, math::Quaternion quaternion_i2b) {
  math::Vector<3> direction_i;
  math::Vector<3> direction_b;

  direction_i = self->GetStarDirection_i(rank);
  direction_b = quaternion_i2b.FrameConversion(direction_i);

  return direction_b;
}
//= s2e::environment::InitHipparcosCatalogue
HipparcosCatalogue* _InitHipparcosCatalogue(std::string file_name) {
  setting_file_reader::IniAccess ini_file(file_name);
  const char* section = "HIPPARCOS_CATALOGUE";

  std::string catalogue_path = ini_file.ReadString(section, "catalogue_file_path");
  double max_magnitude = ini_file.ReadDouble(section, "max_magnitude");

  HipparcosCatalogue* hipparcos_catalogue_;
  hipparcos_catalogue_ = new HipparcosCatalogue(max_magnitude, catalogue_path);
  hipparcos_catalogue_->IsCalcEnabled = ini_file.ReadEnable(section, INI_CALC_LABEL);
  hipparcos_catalogue_->is_log_enabled_ = ini_file.ReadEnable(section, INI_LOG_LABEL);
  hipparcos_catalogue_->ReadContents(catalogue_path, ',');

  return hipparcos_catalogue_;
}
}

// ---------------------------------------------------------------- environment/global/hipparcos_catalogue.hpp
namespace s2e::environment::ref {
//= s2e::environment::HipparcosCatalogue::GetCatalogueSize
size_t HipparcosCatalogue_GetCatalogueSize(HipparcosCatalogue* self) { return self->hipparcos_catalogue_.size(); }
//= s2e::environment::HipparcosCatalogue::GetHipparcosId
int HipparcosCatalogue_GetHipparcosId(HipparcosCatalogue* self, size_t rank) { return self->hipparcos_catalogue_[rank].hipparcos_id; }
//= s2e::environment::HipparcosCatalogue::GetVisibleMagnitude
double HipparcosCatalogue_GetVisibleMagnitude(HipparcosCatalogue* self, size_t rank) { return self->hipparcos_catalogue_[rank].visible_magnitude; }
//= s2e::environment::HipparcosCatalogue::GetRightAscension_deg
double HipparcosCatalogue_GetRightAscension_deg(HipparcosCatalogue* self, size_t rank) { return self->hipparcos_catalogue_[rank].right_ascension_deg; }
//= s2e::environment::HipparcosCatalogue::GetDeclination_deg
double HipparcosCatalogue_GetDeclination_deg(HipparcosCatalogue* self, size_t rank) { return self->hipparcos_catalogue_[rank].declination_deg; }
}

// ---------------------------------------------------------------- environment/global/moon_rotation.cpp
namespace s2e::environment::ref {
//= s2e::environment::MoonRotation::MoonRotation
void MoonRotation_Ctor(MoonRotation* self, const CelestialInformation& celestial_information, MoonRotationMode mode) {
  self->mode_ = mode;
  MUT(self->celestial_information_) = celestial_information;

  self->dcm_j2000_to_mcmf_ = math::MakeIdentityMatrix<3>();
}
//= s2e::environment::MoonRotation::Update
void MoonRotation_Update(MoonRotation* self, const SimulationTime& simulation_time) {
  if (self->mode_ == MoonRotationMode::kSimple) {
    math::Vector<3> moon_position_eci_m = self->celestial_information_.GetPositionFromSelectedBody_i_m("MOON", "EARTH");
    math::Vector<3> moon_velocity_eci_m_s = self->celestial_information_.GetVelocityFromSelectedBody_i_m_s("MOON", "EARTH");
    self->dcm_j2000_to_mcmf_ = planet_rotation::CalcDcmEciToPrincipalAxis(moon_position_eci_m, moon_velocity_eci_m_s);
  } else if (self->mode_ == MoonRotationMode::kIauMoon) {
    ConstSpiceChar from[] = "J2000";
    ConstSpiceChar to[] = "IAU_MOON";
    SpiceDouble et = simulation_time.GetCurrentEphemerisTime();
    SpiceDouble state_transition_matrix[6][6];
    sxform_c(from, to, et, state_transition_matrix);
    for (size_t i = 0; i < 3; i++) {
      for (size_t j = 0; j < 3; j++) {
        self->dcm_j2000_to_mcmf_[i][j] = state_transition_matrix[i][j];
      }
    }
  } else {
    self->dcm_j2000_to_mcmf_ = math::MakeIdentityMatrix<3>();
  }
}
//= s2e::environment::ConvertMoonRotationMode
MoonRotationMode _ConvertMoonRotationMode(const std::string mode) {
  MoonRotationMode rotation_mode;
  if (mode == "IDLE") {
    rotation_mode = MoonRotationMode::kIdle;
  } else if (mode == "SIMPLE") {
    rotation_mode = MoonRotationMode::kSimple;
  } else if (mode == "IAU_MOON") {
    rotation_mode = MoonRotationMode::kIauMoon;
  } else  // if rotation_mode is neither Idle, Simple, nor Full, set rotation_mode to Idle
  {
    rotation_mode = MoonRotationMode::kIdle;
  }

  return rotation_mode;
}
}

// ---------------------------------------------------------------- environment/global/moon_rotation.hpp
namespace s2e::environment::ref {
//= s2e::environment::MoonRotation::GetDcmJ2000ToMcmf
math::Matrix<3, 3> MoonRotation_GetDcmJ2000ToMcmf(MoonRotation* self) { return self->dcm_j2000_to_mcmf_; }
}

// ---------------------------------------------------------------- environment/global/global_environment.cpp
namespace s2e::environment::ref {
//= s2e::environment::GlobalEnvironment::GlobalEnvironment leaves=s2e::environment::GlobalEnvironment::Initialize
void GlobalEnvironment_Ctor(GlobalEnvironment* self, const simulation::SimulationConfiguration* simulation_configuration) { self->Initialize(simulation_configuration); }
//= s2e::environment::GlobalEnvironment::Initialize leaves=s2e::environment::InitCelestialInformation,s2e::environment::InitSimulationTime,s2e::environment::InitHipparcosCatalogue,s2e::environment::InitGnssSatellites,s2e::environment::CelestialInformation::UpdateAllObjectsInformation
void GlobalEnvironment_Initialize(GlobalEnvironment* self, const simulation::SimulationConfiguration* simulation_configuration) {
  // Get ini file path
  setting_file_reader::IniAccess iniAccess = setting_file_reader::IniAccess(simulation_configuration->initialize_base_file_name_);
  std::string simulation_time_ini_path = simulation_configuration->initialize_base_file_name_;

  // Initialize
  self->celestial_information_ = InitCelestialInformation(simulation_configuration->initialize_base_file_name_);
  self->simulation_time_ = InitSimulationTime(simulation_time_ini_path);
  self->hipparcos_catalogue_ = InitHipparcosCatalogue(simulation_configuration->initialize_base_file_name_);
  self->gnss_satellites_ = InitGnssSatellites(simulation_configuration->gnss_file_, self->celestial_information_->GetEarthRotation(), *self->simulation_time_);

  // Calc initial value
  self->celestial_information_->UpdateAllObjectsInformation(*self->simulation_time_);
}
//= s2e::environment::GlobalEnvironment::Update leaves=s2e::environment::CelestialInformation::UpdateAllObjectsInformation,s2e::environment::SimulationTime::UpdateTime,s2e::environment::GnssSatellites::Update
void GlobalEnvironment_Update(GlobalEnvironment* self) {
  self->simulation_time_->UpdateTime();
  self->celestial_information_->UpdateAllObjectsInformation(*self->simulation_time_);
  self->gnss_satellites_->Update(*self->simulation_time_);
}
//= s2e::environment::GlobalEnvironment::LogSetup
void GlobalEnvironment_LogSetup(GlobalEnvironment* self, logger::Logger& logger) {
  logger.AddLogList(self->simulation_time_);
  logger.AddLogList(self->celestial_information_);
  logger.AddLogList(self->gnss_satellites_);
}
//= s2e::environment::GlobalEnvironment::Reset
void GlobalEnvironment_Reset(GlobalEnvironment* self) { self->simulation_time_->ResetClock(); }
}

// ---------------------------------------------------------------- environment/global/global_environment.hpp
namespace s2e::environment::ref {
//= s2e::environment::GlobalEnvironment::GetSimulationTime
SimulationTime& GlobalEnvironment_GetSimulationTime(GlobalEnvironment* self) { return *self->simulation_time_; }
//= s2e::environment::GlobalEnvironment::GetCelestialInformation
CelestialInformation& GlobalEnvironment_GetCelestialInformation(GlobalEnvironment* self) { return *self->celestial_information_; }
//= s2e::environment::GlobalEnvironment::GetHipparcosCatalog
HipparcosCatalogue& GlobalEnvironment_GetHipparcosCatalog(GlobalEnvironment* self) { return *self->hipparcos_catalogue_; }
//= s2e::environment::GlobalEnvironment::GetGnssSatellites
GnssSatellites& GlobalEnvironment_GetGnssSatellites(GlobalEnvironment* self) { return *self->gnss_satellites_; }
}

// ---------------------------------------------------------------- environment/global/physical_constants.hpp
namespace s2e::environment::ref {
//= s2e::environment::degC2K
double _degC2K(double degC) { return (degC - absolute_zero_degC); }
//= s2e::environment::K2degC
double _K2degC(double K) { return (K + absolute_zero_degC); }
}

// ---------------------------------------------------------------- math_physics/planet_rotation/moon_rotation_utilities.cpp
namespace s2e::planet_rotation::ref {
//= s2e::planet_rotation::CalcDcmEciToPrincipalAxis
math::Matrix<3, 3> _CalcDcmEciToPrincipalAxis(const math::Vector<3> moon_position_eci_m, const math::Vector<3> moon_velocity_eci_m_s) {
  math::Matrix<3, 3> dcm_eci2me = CalcDcmEciToMeanEarth(moon_position_eci_m, moon_velocity_eci_m_s);
  math::Matrix<3, 3> dcm_me2pa = CalcDcmMeanEarthToPrincipalAxis();

  return dcm_me2pa * dcm_eci2me;
}
//= s2e::planet_rotation::CalcDcmEciToMeanEarth
math::Matrix<3, 3> _CalcDcmEciToMeanEarth(const math::Vector<3> moon_position_eci_m, const math::Vector<3> moon_velocity_eci_m_s) {
  math::Vector<3> me_ex_eci = -1.0 * moon_position_eci_m.CalcNormalizedVector();

  math::Vector<3> moon_orbit_norm = math::OuterProduct(moon_position_eci_m, moon_velocity_eci_m_s);
  math::Vector<3> me_ez_eci = moon_orbit_norm.CalcNormalizedVector();

  math::Vector<3> me_ey_eci = math::OuterProduct(me_ez_eci, me_ex_eci);

  math::Matrix<3, 3> dcm_eci_to_me;
  for (size_t i = 0; i < 3; i++) {
    dcm_eci_to_me[0][i] = me_ex_eci[i];
    dcm_eci_to_me[1][i] = me_ey_eci[i];
    dcm_eci_to_me[2][i] = me_ez_eci[i];
  }

  return dcm_eci_to_me;
}
//= s2e::planet_rotation::CalcDcmMeanEarthToPrincipalAxis
math::Matrix<3, 3> _CalcDcmMeanEarthToPrincipalAxis() {
  // The correction values between DE430 Principal Axis and Mean Earth frame
  const double theta_x_rad = 0.285 * math::arcsec_to_rad;
  const double theta_y_rad = 78.580 * math::arcsec_to_rad;
  const double theta_z_rad = 67.573 * math::arcsec_to_rad;

  math::Matrix<3, 3> dcm_me_pa =
      math::MakeRotationMatrixZ(theta_z_rad) * math::MakeRotationMatrixY(theta_y_rad) * math::MakeRotationMatrixX(theta_x_rad);

  return dcm_me_pa;
}
}
