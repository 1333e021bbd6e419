// Reference specification for C30 (parsed, never compiled to code or run).
#include "base.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include "dynamics/attitude/attitude.hpp"
#include "dynamics/orbit/orbit.hpp"
#include "environment/local/atmosphere.hpp"
#include "environment/local/earth_albedo.hpp"
#include "environment/local/earth_infrared.hpp"
#include "environment/local/geomagnetic_field.hpp"
#include "environment/local/local_celestial_information.hpp"
#include "environment/local/local_environment.hpp"
#include "environment/local/solar_radiation_pressure_environment.hpp"
#include "logger/log_utility.hpp"
#include "math_physics/atmosphere/harris_priester_coefficients.hpp"
#include "math_physics/atmosphere/harris_priester_model.hpp"
#include "math_physics/atmosphere/simple_air_density_model.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/vector.hpp"
#include "math_physics/randomization/global_randomization.hpp"
#include "math_physics/randomization/normal_randomization.hpp"
#include "math_physics/randomization/random_walk.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
#include <math_physics/geomagnetic/igrf.h>
#include "math_physics/atmosphere/wrapper_nrlmsise00.hpp"
#include <nrlmsise-00.h>
#include <numeric>
// ---------------------------------------------------------------- environment/local/atmosphere.cpp
namespace s2e::environment::ref {
//= s2e::environment::Atmosphere::Atmosphere
void Atmosphere_Ctor(Atmosphere* self, const std::string model, const std::string space_weather_file_name, const double gauss_standard_deviation_rate, const bool is_manual_param, const double manual_f107, const double manual_f107a, const double manual_ap, const LocalCelestialInformation* local_celestial_information, const SimulationTime* simulation_time) {
  self->is_calc_enabled_ = true;
  self->model_ = model;
  self->air_density_kg_m3_ = 0.0;
  self->is_manual_param_used_ = is_manual_param;
  self->manual_daily_f107_ = manual_f107;
  self->manual_average_f107_ = manual_f107a;
  self->manual_ap_ = manual_ap;
  self->gauss_standard_deviation_rate_ = gauss_standard_deviation_rate;
  self->local_celestial_information_ = local_celestial_information;

  if (self->model_ == "STANDARD") {
    // Standard
    std::cerr << "Air density model : STANDARD" << std::endl;
  } else if (self->model_ == "NRLMSISE00") {
    // NRLMSISE-00
    std::cerr << "Air density model : NRLMSISE00" << std::endl;
    if (!self->is_manual_param_used_) {
      double decimal_year = simulation_time->GetCurrentDecimalYear();
      double end_time_s = simulation_time->GetEndTime_s();
      if (GetSpaceWeatherTable_(decimal_year, end_time_s, space_weather_file_name, self->space_weather_table_)) {
      } else {
        std::cerr << "Space Weather file read error!" << std::endl;
        std::cerr << "Air density is switched to STANDARD model" << std::endl;
        self->model_ = "STANDARD";
      }
    }
  } else if (self->model_ == "HARRIS_PRIESTER") {
    // Harris-Priester
    std::cerr << "Air density model : Harris-Priester" << std::endl;
  } else {
    std::cerr << "Air density model : None" << std::endl;
    std::cerr << "Air density is set as 0.0 kg/m3" << std::endl;
  }
}
//= s2e::environment::Atmosphere::CalcAirDensity_kg_m3
double Atmosphere_CalcAirDensity_kg_m3(Atmosphere* self, const double decimal_year, const dynamics::orbit::Orbit& orbit) {
  if (!self->is_calc_enabled_) return 0;

  if (self->model_ == "STANDARD") {
    // Standard model
    double altitude_m = orbit.GetGeodeticPosition().GetAltitude_m();
    self->air_density_kg_m3_ = atmosphere::CalcAirDensityWithSimpleModel(altitude_m);
  } else if (self->model_ == "NRLMSISE00") {
    // NRLMSISE00 model
    double lat_rad = orbit.GetGeodeticPosition().GetLatitude_rad();
    double lon_rad = orbit.GetGeodeticPosition().GetLongitude_rad();
    double alt_m = orbit.GetGeodeticPosition().GetAltitude_m();
    self->air_density_kg_m3_ = CalcNRLMSISE00(decimal_year, lat_rad, lon_rad, alt_m, self->space_weather_table_, self->is_manual_param_used_, self->manual_daily_f107_,
                                        self->manual_average_f107_, self->manual_ap_);
  } else if (self->model_ == "HARRIS_PRIESTER") {
    // Harris-Priester
    math::Vector<3> sun_direction_eci = self->local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
    self->air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), self->local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci);
  } else {
    // No suitable model
    return self->air_density_kg_m3_ = 0.0;
  }

  return self->AddNoise(self->air_density_kg_m3_);
}
//= s2e::environment::Atmosphere::AddNoise
double Atmosphere_AddNoise(Atmosphere* self, const double rho_kg_m3) {
  // RandomWalk rw(rho_kg_m3*rw_stepwidth_,rho_kg_m3*rw_stddev_,rho_kg_m3*rw_limit_);
  randomization::NormalRand nr(0.0, rho_kg_m3 * self->gauss_standard_deviation_rate_, randomization::global_randomization.MakeSeed());
  double nrd = nr;

  return rho_kg_m3 + nrd;
}
//= s2e::environment::InitAtmosphere
Atmosphere _InitAtmosphere(const std::string initialize_file_path, const LocalCelestialInformation* local_celestial_information, const SimulationTime* simulation_time) {
  auto conf = setting_file_reader::IniAccess(initialize_file_path);
  const char* section = "ATMOSPHERE";
  double f107_threshold = 50.0;
  double f107_default = 150.0;

  std::string model = conf.ReadString(section, "model");
  std::string table_path = conf.ReadString(section, "nrlmsise00_table_file");
  double rho_stddev = conf.ReadDouble(section, "air_density_standard_deviation");
  bool is_manual_param_used = conf.ReadEnable(section, "is_manual_parameter_used");
  double manual_daily_f107 = conf.ReadDouble(section, "manual_daily_f107");
  if (manual_daily_f107 < f107_threshold) {
    std::cerr << "Daily F10.7 may be too low. It is set as 150.0 in this simulation. "
                 "Check [ATMOSPHERE] section in LocalEnvironment.ini."
              << std::endl;
    manual_daily_f107 = f107_default;
  }
  double manual_average_f107 = conf.ReadDouble(section, "manual_average_f107");
  if (manual_average_f107 < f107_threshold) {
    std::cerr << "Average F10.7 may be too low. It is set as 150.0 in this "
                 "simulation. Check [ATMOSPHERE] section in LocalEnvironment.ini."
              << std::endl;
    manual_average_f107 = f107_default;
  }
  double manual_ap = conf.ReadDouble(section, "manual_ap");

  Atmosphere atmosphere(model, table_path, rho_stddev, is_manual_param_used, manual_daily_f107, manual_average_f107, manual_ap,
                        local_celestial_information, simulation_time);
  atmosphere.SetCalcFlag(conf.ReadEnable(section, INI_CALC_LABEL));
  atmosphere.is_log_enabled_ = conf.ReadEnable(section, INI_LOG_LABEL);

  return atmosphere;
}
}

// ---------------------------------------------------------------- environment/local/earth_albedo.cpp
namespace s2e::environment::ref {
//= s2e::environment::EarthAlbedo::EarthAlbedo
void EarthAlbedo_Ctor(EarthAlbedo* self, LocalCelestialInformation* local_celestial_information, SolarRadiationPressureEnvironment* srp_environment) {
  self->earth_albedo_W_m2_ = 0.0;
  self->is_calc_earth_albedo_enabled_ = false;
  self->earth_albedo_factor_ = 0.3;
  self->local_celestial_information_ = local_celestial_information;
  self->srp_environment_ = srp_environment;
}
//= s2e::environment::EarthAlbedo::UpdateAllStates
void EarthAlbedo_UpdateAllStates(EarthAlbedo* self) {
  if (!self->GetIsCalcEarthAlbedoEnabled()) return;
  self->CalcEarthAlbedo(self->local_celestial_information_);
}
//= s2e::environment::EarthAlbedo::CalcEarthAlbedo
void EarthAlbedo_CalcEarthAlbedo(EarthAlbedo* self, const LocalCelestialInformation* local_celestial_information) {
  self->earth_albedo_W_m2_ = self->srp_environment_->GetPowerDensity_W_m2() * self->GetEarthAlbedoFactor();
}
//= s2e::environment::InitEarthAlbedo
EarthAlbedo _InitEarthAlbedo(std::string initialize_file_path, LocalCelestialInformation* local_celestial_information, SolarRadiationPressureEnvironment* srp_environment) {
  auto conf = setting_file_reader::IniAccess(initialize_file_path);
  const char* section = "EARTH_ALBEDO";

  EarthAlbedo earth_albedo(local_celestial_information, srp_environment);
  earth_albedo.SetIsCalcEarthAlbedoEnabled(conf.ReadEnable(section, INI_CALC_LABEL));
  earth_albedo.SetEarthAlbedoFactor(conf.ReadDouble(section, "earth_albedo_factor"));

  return earth_albedo;
}
}

// ---------------------------------------------------------------- environment/local/earth_infrared.cpp
namespace s2e::environment::ref {
//= s2e::environment::EarthInfrared::EarthInfrared
void EarthInfrared_Ctor(EarthInfrared* self, LocalCelestialInformation* local_celestial_information, SolarRadiationPressureEnvironment* srp_environment) {
  self->earth_infrared_W_m2_ = 0.0;
  self->is_calc_earth_infrared_enabled_ = false;
  self->earth_infrared_temperature_hot_side_K_ = 0.0;
  self->earth_infrared_temperature_cold_side_K_ = 0.0;
  self->local_celestial_information_ = local_celestial_information;
  self->srp_environment_ = srp_environment;
}
//= s2e::environment::EarthInfrared::UpdateAllStates
void EarthInfrared_UpdateAllStates(EarthInfrared* self) {
  if (!self->GetIsCalcEarthInfraredEnabled()) return;
  self->CalcEarthInfrared(self->local_celestial_information_);
}
//= s2e::environment::EarthInfrared::CalcEarthInfrared
void EarthInfrared_CalcEarthInfrared(EarthInfrared* self, const LocalCelestialInformation* local_celestial_information) {
  if (self->srp_environment_->GetIsEclipsed()) {
    self->earth_infrared_W_m2_ = stefan_boltzmann_constant_W_m2K4 * std::pow(self->earth_infrared_temperature_cold_side_K_, 4.0);
  } else {
    self->earth_infrared_W_m2_ = stefan_boltzmann_constant_W_m2K4 * std::pow(self->earth_infrared_temperature_hot_side_K_, 4.0);
  }
}
//= s2e::environment::InitEarthInfrared
EarthInfrared _InitEarthInfrared(std::string initialize_file_path, LocalCelestialInformation* local_celestial_information, SolarRadiationPressureEnvironment* srp_environment) {
  auto conf = setting_file_reader::IniAccess(initialize_file_path);
  const char* section = "EARTH_INFRARED";

  EarthInfrared earth_infrared(local_celestial_information, srp_environment);
  earth_infrared.SetIsCalcEarthInfraredEnabled(conf.ReadEnable(section, INI_CALC_LABEL));
  earth_infrared.SetEarthTempHotSide_K(conf.ReadDouble(section, "earth_infrared_temperature_hot_side_K"));
  earth_infrared.SetEarthTempColdSide_K(conf.ReadDouble(section, "earth_infrared_temperature_cold_side_K"));

  return earth_infrared;
}
}

// ---------------------------------------------------------------- environment/local/geomagnetic_field.cpp
namespace s2e::environment::ref {
//= s2e::environment::GeomagneticField::GeomagneticField
void GeomagneticField_Ctor(GeomagneticField* self, const std::string igrf_file_name, const double random_walk_srandard_deviation_nT, const double random_walk_limit_nT, const double white_noise_standard_deviation_nT) {
  self->IsCalcEnabled = true;
  self->magnetic_field_i_nT_ = math::Vector<3>(0.0);
  self->magnetic_field_b_nT_ = math::Vector<3>(0.0);
  self->random_walk_standard_deviation_nT_ = random_walk_srandard_deviation_nT;
  self->random_walk_limit_nT_ = random_walk_limit_nT;
  self->white_noise_standard_deviation_nT_ = white_noise_standard_deviation_nT;
  self->random_walk_ = randomization::RandomWalk<3>(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT));
  self->white_noise_ = randomization::NormalRand(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed());
  self->igrf_file_name_ = igrf_file_name;

  set_file_path(self->igrf_file_name_.c_str());
}
//= s2e::environment::GeomagneticField::CalcMagneticField
void GeomagneticField_CalcMagneticField(GeomagneticField* self, const double decimal_year, const double sidereal_day, const geodesy::GeodeticPosition position, const math::Quaternion quaternion_i2b) {
  if (!self->IsCalcEnabled) return;

  const double lat_rad = position.GetLatitude_rad();
  const double lon_rad = position.GetLongitude_rad();
  const double alt_m = position.GetAltitude_m();

  double magnetic_field_array_i_nT[3];
  IgrfCalc(decimal_year, lat_rad, lon_rad, alt_m, sidereal_day, magnetic_field_array_i_nT);
  self->AddNoise(magnetic_field_array_i_nT);
  for (int i = 0; i < 3; ++i) {
    self->magnetic_field_i_nT_[i] = magnetic_field_array_i_nT[i];
  }
  self->magnetic_field_b_nT_ = quaternion_i2b.FrameConversion(self->magnetic_field_i_nT_);
}
//= s2e::environment::GeomagneticField::AddNoise
void GeomagneticField_AddNoise(GeomagneticField* self, double* magnetic_field_array_i_nT) {
  for (int i = 0; i < 3; ++i) {
    magnetic_field_array_i_nT[i] += self->random_walk_[i] + self->white_noise_;
  }
  ++self->random_walk_;  // Update random walk
}
//= s2e::environment::InitGeomagneticField
GeomagneticField _InitGeomagneticField(std::string initialize_file_path) {
  auto conf = setting_file_reader::IniAccess(initialize_file_path);
  const char* section = "MAGNETIC_FIELD_ENVIRONMENT";

  std::string fname = conf.ReadString(section, "coefficient_file");
  double mag_rwdev = conf.ReadDouble(section, "magnetic_field_random_walk_standard_deviation_nT");
  double mag_rwlimit = conf.ReadDouble(section, "magnetic_field_random_walk_limit_nT");
  double mag_wnvar = conf.ReadDouble(section, "magnetic_field_white_noise_standard_deviation_nT");

  GeomagneticField geomagnetic_field(fname, mag_rwdev, mag_rwlimit, mag_wnvar);
  geomagnetic_field.IsCalcEnabled = conf.ReadEnable(section, INI_CALC_LABEL);
  geomagnetic_field.is_log_enabled_ = conf.ReadEnable(section, INI_LOG_LABEL);

  return geomagnetic_field;
}
}

// ---------------------------------------------------------------- environment/local/local_environment.cpp
namespace s2e::environment::ref {
//= s2e::environment::LocalEnvironment::LocalEnvironment
void LocalEnvironment_Ctor(LocalEnvironment* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::GlobalEnvironment* global_environment, const int spacecraft_id) {
  self->Initialize(simulation_configuration, global_environment, spacecraft_id);
}
//= s2e::environment::LocalEnvironment::Initialize
void LocalEnvironment_Initialize(LocalEnvironment* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::GlobalEnvironment* global_environment, const int spacecraft_id) {
  // Read file name
  setting_file_reader::IniAccess iniAccess = setting_file_reader::IniAccess(simulation_configuration->spacecraft_file_list_[spacecraft_id]);
  std::string ini_fname = iniAccess.ReadString("SETTING_FILES", "local_environment_file");

  // Save ini file
  simulation_configuration->main_logger_->CopyFileToLogDirectory(ini_fname);

  // Initialize
  self->geomagnetic_field_ = new GeomagneticField(InitGeomagneticField(ini_fname));
  self->celestial_information_ = new LocalCelestialInformation(&(global_environment->GetCelestialInformation()));
  self->atmosphere_ = new Atmosphere(InitAtmosphere(ini_fname, self->celestial_information_, &global_environment->GetSimulationTime()));
  self->solar_radiation_pressure_environment_ =
      new SolarRadiationPressureEnvironment(InitSolarRadiationPressureEnvironment(ini_fname, self->celestial_information_));
  self->earth_albedo_ = new EarthAlbedo(InitEarthAlbedo(ini_fname, self->celestial_information_, self->solar_radiation_pressure_environment_));
  self->earth_infrared_ = new EarthInfrared(InitEarthInfrared(ini_fname, self->celestial_information_, self->solar_radiation_pressure_environment_));

  // Force to disable when the center body is not the Earth
  if (global_environment->GetCelestialInformation().GetCenterBodyName() != "EARTH") {
    self->geomagnetic_field_->IsCalcEnabled = false;
    self->atmosphere_->SetCalcFlag(false);
  }

  // Log setting for Local celestial information
  setting_file_reader::IniAccess conf = setting_file_reader::IniAccess(ini_fname);
  self->celestial_information_->is_log_enabled_ = conf.ReadEnable("LOCAL_CELESTIAL_INFORMATION", "logging");
}
//= s2e::environment::LocalEnvironment::Update
void LocalEnvironment_Update(LocalEnvironment* self, const dynamics::Dynamics* dynamics, const SimulationTime* simulation_time) {
  auto& orbit = dynamics->GetOrbit();
  auto& attitude = dynamics->GetAttitude();

  // Update local environments that depend on the attitude (and the position)
  if (simulation_time->GetAttitudePropagateFlag()) {
    self->celestial_information_->UpdateAllObjectsInformation(orbit.GetPosition_i_m(), orbit.GetVelocity_i_m_s(), attitude.GetQuaternion_i2b(),
                                                        attitude.GetAngularVelocity_b_rad_s());
    self->geomagnetic_field_->CalcMagneticField(simulation_time->GetCurrentDecimalYear(), simulation_time->GetCurrentSiderealTime(),
                                          orbit.GetGeodeticPosition(), attitude.GetQuaternion_i2b());
  }

  // Update local environments that depend only on the position
  if (simulation_time->GetOrbitPropagateFlag()) {
    self->solar_radiation_pressure_environment_->UpdateAllStates();
    self->earth_albedo_->UpdateAllStates();
    self->earth_infrared_->UpdateAllStates();
    self->atmosphere_->CalcAirDensity_kg_m3(simulation_time->GetCurrentDecimalYear(), orbit);
  }
}
//= s2e::environment::LocalEnvironment::LogSetup
void LocalEnvironment_LogSetup(LocalEnvironment* self, logger::Logger& logger) {
  logger.AddLogList(self->geomagnetic_field_);
  logger.AddLogList(self->solar_radiation_pressure_environment_);
  logger.AddLogList(self->earth_albedo_);
  logger.AddLogList(self->earth_infrared_);
  logger.AddLogList(self->atmosphere_);
  logger.AddLogList(self->celestial_information_);
}
}

// ---------------------------------------------------------------- environment/local/solar_radiation_pressure_environment.cpp
namespace s2e::environment::ref {
//= s2e::environment::SolarRadiationPressureEnvironment::SolarRadiationPressureEnvironment
void SolarRadiationPressureEnvironment_Ctor(SolarRadiationPressureEnvironment* self, LocalCelestialInformation* local_celestial_information) {
  self->IsCalcEnabled = true;
  self->solar_constant_W_m2_ = 1366.0;
  self->shadow_coefficient_ = 1.0;
  self->local_celestial_information_ = local_celestial_information;

  self->solar_radiation_pressure_N_m2_ = self->solar_constant_W_m2_ / environment::speed_of_light_m_s;
  self->shadow_source_name_list_.push_back(self->local_celestial_information_->GetGlobalInformation().GetCenterBodyName());
  self->sun_radius_m_ = self->local_celestial_information_->GetGlobalInformation().GetMeanRadiusFromName_m("SUN");
}
//= s2e::environment::SolarRadiationPressureEnvironment::UpdateAllStates
void SolarRadiationPressureEnvironment_UpdateAllStates(SolarRadiationPressureEnvironment* self) {
  if (!self->IsCalcEnabled) return;

  self->UpdatePressure();
  self->shadow_coefficient_ = 1.0;  // Initialize for multiple shadow source
  for (auto shadow_source_name : self->shadow_source_name_list_) {
    self->CalcShadowCoefficient(shadow_source_name);
  }
}
//= s2e::environment::SolarRadiationPressureEnvironment::UpdatePressure
void SolarRadiationPressureEnvironment_UpdatePressure(SolarRadiationPressureEnvironment* self) {
  const math::Vector<3> r_sc2sun_eci = self->local_celestial_information_->GetPositionFromSpacecraft_i_m("SUN");
  const double distance_sat_to_sun = r_sc2sun_eci.CalcNorm();
  self->solar_radiation_pressure_N_m2_ =
      self->solar_constant_W_m2_ / environment::speed_of_light_m_s / pow(distance_sat_to_sun / environment::astronomical_unit_m, 2.0);
}
//= s2e::environment::SolarRadiationPressureEnvironment::CalcShadowCoefficient
void SolarRadiationPressureEnvironment_CalcShadowCoefficient(SolarRadiationPressureEnvironment* self, std::string shadow_source_name) {
  if (shadow_source_name == "SUN") {
    self->shadow_coefficient_ *= 1.0;
    return;
  }

  const math::Vector<3> r_sc2sun_eci = self->local_celestial_information_->GetPositionFromSpacecraft_i_m("SUN");
  const math::Vector<3> r_sc2source_eci = self->local_celestial_information_->GetPositionFromSpacecraft_i_m(shadow_source_name.c_str());

  const double shadow_source_radius_m = self->local_celestial_information_->GetGlobalInformation().GetMeanRadiusFromName_m(shadow_source_name.c_str());

  const double distance_sat_to_sun = r_sc2sun_eci.CalcNorm();
  const double sd_sun = asin(self->sun_radius_m_ / distance_sat_to_sun);                     // Apparent radius of the sun
  const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source

  // Angle of deviation from shadow source center to sun center
  math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
  const double cos_delta = InnerProduct(r_sc2source_eci, r_source2sun_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm();
  const double delta = acos(std::max(-1.0, std::min(1.0, cos_delta)));
  // The angle between the center of the sun and the common chord
  const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
  // The length of the common chord of the apparent solar disk and apparent telestial disk
  const double y = sqrt(std::max(sd_sun * sd_sun - x * x, 0.0));

  const double a = sd_sun;
  const double b = sd_source;
  const double c = delta;

  if (c < fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
  {
    self->shadow_coefficient_ *= 0.0;
  } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
  {
    self->shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
  } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
  {
    double A = a * a * acos(std::max(-1.0, std::min(1.0, x / a))) + b * b * acos(std::max(-1.0, std::min(1.0, (c - x) / b))) - c * y;  // The area of the occulted segment of the apparent solar disk
    self->shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
  } else {  // no occultation takes place
    if (c < (a + b)) {
      std::cout << "[Error SRP Environment]: The calculation error was occurred at the shadow calculation." << std::endl;
      std::cout << "                         The orbit setting may have something wrong." << std::endl;
      std::exit(1);
    }
    self->shadow_coefficient_ *= 1.0;
  }
}
//= s2e::environment::InitSolarRadiationPressureEnvironment
SolarRadiationPressureEnvironment _InitSolarRadiationPressureEnvironment(std::string initialize_file_path, LocalCelestialInformation* local_celestial_information) {
  auto conf = setting_file_reader::IniAccess(initialize_file_path);
  const char* section = "SOLAR_RADIATION_PRESSURE_ENVIRONMENT";

  SolarRadiationPressureEnvironment srp_env(local_celestial_information);
  srp_env.IsCalcEnabled = conf.ReadEnable(section, INI_CALC_LABEL);
  srp_env.is_log_enabled_ = conf.ReadEnable(section, INI_LOG_LABEL);

  size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
  std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
  for (size_t i = 0; i < number_of_third_shadow_source; i++) {
    srp_env.AddShadowSource(list[i]);
  }

  return srp_env;
}
}

// ---------------------------------------------------------------- environment/local/local_celestial_information.cpp
namespace s2e::environment::ref {
//= s2e::environment::LocalCelestialInformation::LocalCelestialInformation
void LocalCelestialInformation_Ctor(LocalCelestialInformation* self, const CelestialInformation* global_celestial_information) {
  self->global_celestial_information_ = global_celestial_information;

  int num_of_state = self->global_celestial_information_->GetNumberOfSelectedBodies() * 3;
  self->celestial_body_position_from_center_b_m_ = new double[num_of_state];
  self->celestial_body_velocity_from_center_b_m_s_ = new double[num_of_state];
  self->celestial_body_position_from_spacecraft_i_m_ = new double[num_of_state];
  self->celestial_body_velocity_from_spacecraft_i_m_s_ = new double[num_of_state];
  self->celestial_body_position_from_spacecraft_b_m_ = new double[num_of_state];
  self->celestial_body_velocity_from_spacecraft_b_m_s_ = new double[num_of_state];

  for (int i = 0; i < num_of_state; i++) {
    self->celestial_body_position_from_center_b_m_[i] = 0.0;
    self->celestial_body_velocity_from_center_b_m_s_[i] = 0.0;
    self->celestial_body_position_from_spacecraft_i_m_[i] = 0.0;
    self->celestial_body_velocity_from_spacecraft_i_m_s_[i] = 0.0;
    self->celestial_body_position_from_spacecraft_b_m_[i] = 0.0;
    self->celestial_body_velocity_from_spacecraft_b_m_s_[i] = 0.0;
  }
}
//= s2e::environment::LocalCelestialInformation::UpdateAllObjectsInformation
void LocalCelestialInformation_UpdateAllObjectsInformation(LocalCelestialInformation* self, const math::Vector<3> spacecraft_position_from_center_i_m, const math::Vector<3> spacecraft_velocity_from_center_i_m_s, const math::Quaternion quaternion_i2b, const math::Vector<3> spacecraft_angular_velocity_rad_s) {
  math::Vector<3> celestial_body_position_i_m, celestial_body_velocity_i_m_s;
  for (int i = 0; i < self->global_celestial_information_->GetNumberOfSelectedBodies(); i++) {
    celestial_body_position_i_m = self->global_celestial_information_->GetPositionFromCenter_i_m(i);
    celestial_body_velocity_i_m_s = self->global_celestial_information_->GetVelocityFromCenter_i_m_s(i);
    // Change origin of frame
    for (int j = 0; j < 3; j++) {
      self->celestial_body_position_from_spacecraft_i_m_[i * 3 + j] = celestial_body_position_i_m[j] - spacecraft_position_from_center_i_m[j];
      self->celestial_body_velocity_from_spacecraft_i_m_s_[i * 3 + j] = celestial_body_velocity_i_m_s[j] - spacecraft_velocity_from_center_i_m_s[j];
    }
  }
  self->CalcAllPosVel_b(quaternion_i2b, spacecraft_angular_velocity_rad_s);

  return;
}
//= s2e::environment::LocalCelestialInformation::CalcAllPosVel_b
void LocalCelestialInformation_CalcAllPosVel_b(LocalCelestialInformation* self, const math::Quaternion quaternion_i2b, const math::Vector<3> spacecraft_angular_velocity_rad_s) {
  math::Vector<3> celestial_body_position_i_m, celestial_body_velocity_i_m_s;
  double r_buf1_i[3], velocity_buf1_i[3], r_buf1_b[3], velocity_buf1_b[3];
  double r_buf2_i[3], velocity_buf2_i[3], r_buf2_b[3], velocity_buf2_b[3];
  for (int i = 0; i < self->global_celestial_information_->GetNumberOfSelectedBodies(); i++) {
    celestial_body_position_i_m = self->global_celestial_information_->GetPositionFromCenter_i_m(i);
    celestial_body_velocity_i_m_s = self->global_celestial_information_->GetVelocityFromCenter_i_m_s(i);
    for (int j = 0; j < 3; j++) {
      r_buf1_i[j] = celestial_body_position_i_m[j];
      r_buf2_i[j] = self->celestial_body_position_from_spacecraft_i_m_[i * 3 + j];
      velocity_buf1_i[j] = celestial_body_velocity_i_m_s[j];
      velocity_buf2_i[j] = self->celestial_body_velocity_from_spacecraft_i_m_s_[i * 3 + j];
    }
    self->ConvertInertialToBody(r_buf1_i, r_buf1_b, quaternion_i2b);
    self->ConvertInertialToBody(r_buf2_i, r_buf2_b, quaternion_i2b);
    self->ConvertVelocityInertialToBody(r_buf1_i, velocity_buf1_i, velocity_buf1_b, quaternion_i2b, spacecraft_angular_velocity_rad_s);
    self->ConvertVelocityInertialToBody(r_buf2_i, velocity_buf2_i, velocity_buf2_b, quaternion_i2b, spacecraft_angular_velocity_rad_s);

    for (int j = 0; j < 3; j++) {
      self->celestial_body_position_from_center_b_m_[i * 3 + j] = r_buf1_b[j];
      self->celestial_body_position_from_spacecraft_b_m_[i * 3 + j] = r_buf2_b[j];
      self->celestial_body_velocity_from_center_b_m_s_[i * 3 + j] = velocity_buf1_b[j];
      self->celestial_body_velocity_from_spacecraft_b_m_s_[i * 3 + j] = velocity_buf2_b[j];
    }
  }
}
//= s2e::environment::LocalCelestialInformation::ConvertInertialToBody
void LocalCelestialInformation_ConvertInertialToBody(LocalCelestialInformation* self, const double* input_i, double* output_b, math::Quaternion quaternion_i2b) {
  math::Vector<3> temp_i;
  for (int i = 0; i < 3; i++) {
    temp_i[i] = input_i[i];
  }
  math::Vector<3> temp_b = quaternion_i2b.FrameConversion(temp_i);
  for (int i = 0; i < 3; i++) {
    output_b[i] = temp_b[i];
  }
}
//= s2e::environment::LocalCelestialInformation::ConvertVelocityInertialToBody
void LocalCelestialInformation_ConvertVelocityInertialToBody(LocalCelestialInformation* self, const double* position_i, const double* velocity_i, double* velocity_b, const math::Quaternion quaternion_i2b, const math::Vector<3> angular_velocity_b) {
  // copy input vector
  math::Vector<3> vi;
  for (int i = 0; i < 3; i++) {
    vi[i] = velocity_i[i];
  }
  math::Vector<3> ri;
  for (int i = 0; i < 3; i++) {
    ri[i] = position_i[i];
  }

  // convert body rate vector into that in inertial coordinate
  math::Vector<3> wi = quaternion_i2b.InverseFrameConversion(angular_velocity_b);

  // compute cross term wxr
  math::Vector<3> wxposition_i = OuterProduct(wi, ri);
  // compute dr/dt + wxr
  for (int i = 0; i < 3; i++) {
    vi[i] = vi[i] - wxposition_i[i];
  }
  // convert vector in inertial coordinate into that in body coordinate
  math::Vector<3> temp_b = quaternion_i2b.FrameConversion(vi);
  for (int i = 0; i < 3; i++) {
    velocity_b[i] = temp_b[i];
  }
}
//= s2e::environment::LocalCelestialInformation::GetPositionFromSpacecraft_i_m
math::Vector<3> LocalCelestialInformation_GetPositionFromSpacecraft_i_m(LocalCelestialInformation* self, const char* body_name) {
  math::Vector<3> position;
  int index = 0;
  index = self->global_celestial_information_->CalcBodyIdFromName(body_name);
  for (int i = 0; i < 3; i++) {
    position[i] = self->celestial_body_position_from_spacecraft_i_m_[index * 3 + i];
  }
  return position;
}
//= s2e::environment::LocalCelestialInformation::GetCenterBodyPositionFromSpacecraft_i_m
math::Vector<3> LocalCelestialInformation_GetCenterBodyPositionFromSpacecraft_i_m(LocalCelestialInformation* self) {
  std::string body_name = self->global_celestial_information_->GetCenterBodyName();
  math::Vector<3> position = self->GetPositionFromSpacecraft_i_m(body_name.c_str());
  return position;
}
//= s2e::environment::LocalCelestialInformation::GetPositionFromSpacecraft_b_m
math::Vector<3> LocalCelestialInformation_GetPositionFromSpacecraft_b_m(LocalCelestialInformation* self, const char* body_name) {
  math::Vector<3> position;
  int index = 0;
  index = self->global_celestial_information_->CalcBodyIdFromName(body_name);
  for (int i = 0; i < 3; i++) {
    position[i] = self->celestial_body_position_from_spacecraft_b_m_[index * 3 + i];
  }
  return position;
}
//= s2e::environment::LocalCelestialInformation::GetCenterBodyPositionFromSpacecraft_b_m
math::Vector<3> LocalCelestialInformation_GetCenterBodyPositionFromSpacecraft_b_m(LocalCelestialInformation* self) {
  std::string body_name = self->global_celestial_information_->GetCenterBodyName();
  math::Vector<3> position = self->GetPositionFromSpacecraft_b_m(body_name.c_str());
  return position;
}
}

// ---------------------------------------------------------------- environment/local/atmosphere.hpp
namespace s2e::environment::ref {
//= s2e::environment::Atmosphere::GetAirDensity_kg_m3
double Atmosphere_GetAirDensity_kg_m3(Atmosphere* self) { return self->air_density_kg_m3_; }
//= s2e::environment::Atmosphere::SetCalcFlag
void Atmosphere_SetCalcFlag(Atmosphere* self, const bool is_calc_enabled) { self->is_calc_enabled_ = is_calc_enabled; }
}

// ---------------------------------------------------------------- environment/local/earth_albedo.hpp
namespace s2e::environment::ref {
//= s2e::environment::EarthAlbedo::GetEarthAlbedoFactor
double EarthAlbedo_GetEarthAlbedoFactor(EarthAlbedo* self) { return self->earth_albedo_factor_; }
//= s2e::environment::EarthAlbedo::GetEarthAlbedoRadiationPower_W_m2
double EarthAlbedo_GetEarthAlbedoRadiationPower_W_m2(EarthAlbedo* self) { return self->earth_albedo_W_m2_; }
//= s2e::environment::EarthAlbedo::GetIsCalcEarthAlbedoEnabled
bool EarthAlbedo_GetIsCalcEarthAlbedoEnabled(EarthAlbedo* self) { return self->is_calc_earth_albedo_enabled_; }
//= s2e::environment::EarthAlbedo::SetEarthAlbedoFactor
void EarthAlbedo_SetEarthAlbedoFactor(EarthAlbedo* self, const double earth_albedo_factor) { self->earth_albedo_factor_ = earth_albedo_factor; }
//= s2e::environment::EarthAlbedo::SetIsCalcEarthAlbedoEnabled
void EarthAlbedo_SetIsCalcEarthAlbedoEnabled(EarthAlbedo* self, const bool is_calc_earth_albedo_enabled) { self->is_calc_earth_albedo_enabled_ = is_calc_earth_albedo_enabled; }
}

// ---------------------------------------------------------------- environment/local/earth_infrared.hpp
namespace s2e::environment::ref {
//= s2e::environment::EarthInfrared::GetEarthInfraredRadiationPower_W_m2
double EarthInfrared_GetEarthInfraredRadiationPower_W_m2(EarthInfrared* self) { return self->earth_infrared_W_m2_; }
//= s2e::environment::EarthInfrared::GetIsCalcEarthInfraredEnabled
bool EarthInfrared_GetIsCalcEarthInfraredEnabled(EarthInfrared* self) { return self->is_calc_earth_infrared_enabled_; }
//= s2e::environment::EarthInfrared::SetIsCalcEarthInfraredEnabled
void EarthInfrared_SetIsCalcEarthInfraredEnabled(EarthInfrared* self, const bool is_calc_earth_infrared_enabled) {
    self->is_calc_earth_infrared_enabled_ = is_calc_earth_infrared_enabled;
  }
//= s2e::environment::EarthInfrared::SetEarthTempHotSide_K
void EarthInfrared_SetEarthTempHotSide_K(EarthInfrared* self, const double earth_infrared_temperature_hot_side_K) {
    self->earth_infrared_temperature_hot_side_K_ = earth_infrared_temperature_hot_side_K;
  }
//= s2e::environment::EarthInfrared::SetEarthTempColdSide_K
void EarthInfrared_SetEarthTempColdSide_K(EarthInfrared* self, const double earth_infrared_temperature_cold_side_K) {
    self->earth_infrared_temperature_cold_side_K_ = earth_infrared_temperature_cold_side_K;
  }
}

// ---------------------------------------------------------------- environment/local/geomagnetic_field.hpp
namespace s2e::environment::ref {
//= s2e::environment::GeomagneticField::GetGeomagneticField_i_nT
math::Vector<3> GeomagneticField_GetGeomagneticField_i_nT(GeomagneticField* self) { return self->magnetic_field_i_nT_; }
//= s2e::environment::GeomagneticField::GetGeomagneticField_b_nT
math::Vector<3> GeomagneticField_GetGeomagneticField_b_nT(GeomagneticField* self) { return self->magnetic_field_b_nT_; }
}

// ---------------------------------------------------------------- environment/local/local_environment.hpp
namespace s2e::environment::ref {
//= s2e::environment::LocalEnvironment::GetAtmosphere
Atmosphere& LocalEnvironment_GetAtmosphere(LocalEnvironment* self) { return *self->atmosphere_; }
//= s2e::environment::LocalEnvironment::GetGeomagneticField
GeomagneticField& LocalEnvironment_GetGeomagneticField(LocalEnvironment* self) { return *self->geomagnetic_field_; }
//= s2e::environment::LocalEnvironment::GetSolarRadiationPressure
SolarRadiationPressureEnvironment& LocalEnvironment_GetSolarRadiationPressure(LocalEnvironment* self) { return *self->solar_radiation_pressure_environment_; }
//= s2e::environment::LocalEnvironment::GetEarthAlbedo
EarthAlbedo& LocalEnvironment_GetEarthAlbedo(LocalEnvironment* self) { return *self->earth_albedo_; }
//= s2e::environment::LocalEnvironment::GetEarthInfrared
EarthInfrared& LocalEnvironment_GetEarthInfrared(LocalEnvironment* self) { return *self->earth_infrared_; }
//= s2e::environment::LocalEnvironment::GetCelestialInformation
LocalCelestialInformation& LocalEnvironment_GetCelestialInformation(LocalEnvironment* self) { return *self->celestial_information_; }
}

// ---------------------------------------------------------------- environment/local/solar_radiation_pressure_environment.hpp
namespace s2e::environment::ref {
//= s2e::environment::SolarRadiationPressureEnvironment::AddShadowSource
void SolarRadiationPressureEnvironment_AddShadowSource(SolarRadiationPressureEnvironment* self, const std::string shadow_source_name) {
    // TODO: Add assertion
    self->shadow_source_name_list_.push_back(shadow_source_name);
  }
//= s2e::environment::SolarRadiationPressureEnvironment::GetPressure_N_m2
double SolarRadiationPressureEnvironment_GetPressure_N_m2(SolarRadiationPressureEnvironment* self) { return self->solar_radiation_pressure_N_m2_ * self->shadow_coefficient_; }
//= s2e::environment::SolarRadiationPressureEnvironment::GetPowerDensity_W_m2
double SolarRadiationPressureEnvironment_GetPowerDensity_W_m2(SolarRadiationPressureEnvironment* self) { return self->solar_radiation_pressure_N_m2_ * environment::speed_of_light_m_s * self->shadow_coefficient_; }
//= s2e::environment::SolarRadiationPressureEnvironment::GetPressureWithoutEclipse_Nm2
double SolarRadiationPressureEnvironment_GetPressureWithoutEclipse_Nm2(SolarRadiationPressureEnvironment* self) { return self->solar_radiation_pressure_N_m2_; }
//= s2e::environment::SolarRadiationPressureEnvironment::GetSolarConstant_W_m2
double SolarRadiationPressureEnvironment_GetSolarConstant_W_m2(SolarRadiationPressureEnvironment* self) { return self->solar_constant_W_m2_; }
//= s2e::environment::SolarRadiationPressureEnvironment::GetShadowCoefficient
double SolarRadiationPressureEnvironment_GetShadowCoefficient(SolarRadiationPressureEnvironment* self) { return self->shadow_coefficient_; }
//= s2e::environment::SolarRadiationPressureEnvironment::GetIsEclipsed
bool SolarRadiationPressureEnvironment_GetIsEclipsed(SolarRadiationPressureEnvironment* self) { return (self->shadow_coefficient_ >= 1.0 ? false : true); }
}

// ---------------------------------------------------------------- environment/local/local_celestial_information.hpp
namespace s2e::environment::ref {
//= s2e::environment::LocalCelestialInformation::GetGlobalInformation
const CelestialInformation& LocalCelestialInformation_GetGlobalInformation(const LocalCelestialInformation* self) { return *self->global_celestial_information_; }
}

// ---------------------------------------------------------------- math_physics/atmosphere/harris_priester_model.cpp
namespace s2e::atmosphere::ref {
//= s2e::atmosphere::CalcScaleHeight_km
double _CalcScaleHeight_km(const std::map<double, double>::const_iterator density_itr) {
  const double height_1_km = density_itr->first;
  const double density_1_g_km3 = density_itr->second;
  const double height_2_km = next(density_itr)->first;
  const double density_2_g_km3 = next(density_itr)->second;

  double scale_height_km = (height_1_km - height_2_km) / log(density_2_g_km3 / density_1_g_km3);
  return scale_height_km;
}
//= s2e::atmosphere::CalcApexDensity_g_km3
double _CalcApexDensity_g_km3(const std::map<double, double>::const_iterator density_itr, const double altitude_km) {
  const double scale_height_km = _CalcScaleHeight_km(density_itr);
  const double height_km = density_itr->first;
  const double density_g_km3 = density_itr->second;

  double apex_density_g_km3 = density_g_km3 * exp((height_km - altitude_km) / scale_height_km);
  return apex_density_g_km3;
}
//= s2e::atmosphere::CalcAirDensityWithHarrisPriester_kg_m3
double _CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci, const double f10_7, const double exponent_parameter) {
  // Altitude
  double altitude_km = geodetic_position.GetAltitude_m() / 1000.0;

  // Position
  math::Vector<3> position_ecef_m = geodetic_position.CalcEcefPosition();

  // Phi: angle between the satellite position and apex of the diurnal bulge
  double sun_ra_rad;   //!< Right ascension of the sun phi
  double sun_dec_rad;  //!< Declination of the sun theta
  sun_ra_rad = atan2(sun_direction_eci[1], sun_direction_eci[0]);
  sun_dec_rad = atan2(sun_direction_eci[2], sqrt(sun_direction_eci[0] * sun_direction_eci[0] + sun_direction_eci[1] * sun_direction_eci[1]));
  math::Vector<3> apex_direction;
  const double lag_angle_rad = 30.0 * math::deg_to_rad;
  double apex_ra_rad = sun_ra_rad + lag_angle_rad;
  apex_direction[0] = cos(sun_dec_rad) * cos(apex_ra_rad);
  apex_direction[1] = cos(sun_dec_rad) * sin(apex_ra_rad);
  apex_direction[2] = sin(sun_dec_rad);

  double beta_rad = math::InnerProduct(position_ecef_m.CalcNormalizedVector(), apex_direction);
  double cos_phi = pow(0.5 + beta_rad / 2.0, exponent_parameter / 2.0);

  // Find density coefficients from altitude
  UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
  auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
  auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;
  if (min_density_itr == harris_priester_min_density_table.end()) {
    return (prev(min_density_itr)->second + prev(max_density_itr)->second) / 2.0 * 1e-12;
  }
  min_density_itr = prev(min_density_itr);
  max_density_itr = prev(max_density_itr);

  // Calculate density
  double antapex_density_g_km3 = _CalcApexDensity_g_km3(min_density_itr, altitude_km);
  double apex_density_g_km3 = _CalcApexDensity_g_km3(max_density_itr, altitude_km);

  double density_g_km3 = antapex_density_g_km3 + (apex_density_g_km3 - antapex_density_g_km3) * cos_phi;

  return density_g_km3 * 1e-12;  // Unit conversion g/km3 -> kg/m^3
}
}

// ---------------------------------------------------------------- math_physics/atmosphere/simple_air_density_model.cpp
namespace s2e::atmosphere::ref {
//= s2e::atmosphere::CalcAirDensityWithSimpleModel
double _CalcAirDensityWithSimpleModel(const double altitude_m) {
  double altitude_km = altitude_m / 1000.0;
  double scale_height_km;
  double base_height_km;
  double base_rho_kg_m3;

  // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
  if (altitude_km >= 1000.0) {
    scale_height_km = 268.0;
    base_height_km = 1000.0;
    base_rho_kg_m3 = 3.019E-15;
  } else if (altitude_km >= 900.0 && altitude_km < 1000.0) {
    scale_height_km = 181.05;
    base_height_km = 900.0;
    base_rho_kg_m3 = 5.245E-15;
  } else if (altitude_km >= 800.0 && altitude_km < 900.0) {
    scale_height_km = 124.64;
    base_height_km = 800.0;
    base_rho_kg_m3 = 1.170E-14;
  } else if (altitude_km >= 700.0 && altitude_km < 800.0) {
    scale_height_km = 88.667;
    base_height_km = 700.0;
    base_rho_kg_m3 = 3.614E-14;
  } else if (altitude_km >= 600.0 && altitude_km < 700.0) {
    scale_height_km = 71.835;
    base_height_km = 600.0;
    base_rho_kg_m3 = 1.454E-13;
  } else if (altitude_km >= 500.0 && altitude_km < 600.0) {
    scale_height_km = 63.822;
    base_height_km = 500.0;
    base_rho_kg_m3 = 6.967E-13;
  } else if (altitude_km >= 450.0 && altitude_km < 500.0) {
    scale_height_km = 60.828;
    base_height_km = 450.0;
    base_rho_kg_m3 = 1.585E-12;
  } else if (altitude_km >= 400.0 && altitude_km < 450.0) {
    scale_height_km = 58.515;
    base_height_km = 400.0;
    base_rho_kg_m3 = 3.725E-12;
  } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
    scale_height_km = 53.298;
    base_height_km = 350.0;
    base_rho_kg_m3 = 9.158E-12;
  } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
    scale_height_km = 53.628;
    base_height_km = 300.0;
    base_rho_kg_m3 = 2.418E-11;
  } else if (altitude_km >= 250.0 && altitude_km < 300.0) {
    scale_height_km = 45.546;
    base_height_km = 250.0;
    base_rho_kg_m3 = 7.248E-11;
  } else if (altitude_km >= 200.0 && altitude_km < 250.0) {
    scale_height_km = 37.105;
    base_height_km = 200.0;
    base_rho_kg_m3 = 2.789E-10;
  } else if (altitude_km >= 180.0 && altitude_km < 200.0) {
    scale_height_km = 29.740;
    base_height_km = 180.0;
    base_rho_kg_m3 = 5.464E-10;
  } else if (altitude_km >= 150.0 && altitude_km < 180.0) {
    scale_height_km = 22.523;
    base_height_km = 150.0;
    base_rho_kg_m3 = 2.070E-9;
  } else if (altitude_km >= 140.0 && altitude_km < 150.0) {
    scale_height_km = 16.149;
    base_height_km = 140.0;
    base_rho_kg_m3 = 3.845E-9;
  } else if (altitude_km >= 130.0 && altitude_km < 140.0) {
    scale_height_km = 12.636;
    base_height_km = 130.0;
    base_rho_kg_m3 = 8.484E-9;
  } else if (altitude_km >= 120.0 && altitude_km < 130.0) {
    scale_height_km = 9.473;
    base_height_km = 120.0;
    base_rho_kg_m3 = 2.438E-8;
  } else if (altitude_km >= 110.0 && altitude_km < 120.0) {
    scale_height_km = 7.263;
    base_height_km = 110.0;
    base_rho_kg_m3 = 9.661E-8;
  } else if (altitude_km >= 100.0 && altitude_km < 110.0) {
    scale_height_km = 5.877;
    base_height_km = 100.0;
    base_rho_kg_m3 = 5.297E-7;
  } else if (altitude_km >= 90.0 && altitude_km < 100.0) {
    scale_height_km = 5.382;
    base_height_km = 90.0;
    base_rho_kg_m3 = 3.396E-6;
  } else if (altitude_km >= 80.0 && altitude_km < 90.0) {
    scale_height_km = 5.799;
    base_height_km = 80.0;
    base_rho_kg_m3 = 1.905E-5;
  } else if (altitude_km >= 70.0 && altitude_km < 80.0) {
    scale_height_km = 6.549;
    base_height_km = 70.0;
    base_rho_kg_m3 = 8.770E-5;
  } else if (altitude_km >= 60.0 && altitude_km < 70.0) {
    scale_height_km = 7.714;
    base_height_km = 60.0;
    base_rho_kg_m3 = 3.206E-4;
  } else if (altitude_km >= 50.0 && altitude_km < 60.0) {
    scale_height_km = 8.382;
    base_height_km = 50.0;
    base_rho_kg_m3 = 1.057E-3;
  } else if (altitude_km >= 40.0 && altitude_km < 50.0) {
    scale_height_km = 7.554;
    base_height_km = 40.0;
    base_rho_kg_m3 = 3.972E-3;
  } else if (altitude_km >= 30.0 && altitude_km < 40.0) {
    scale_height_km = 6.682;
    base_height_km = 30.0;
    base_rho_kg_m3 = 1.774E-2;
  } else if (altitude_km >= 25.0 && altitude_km < 30.0) {
    scale_height_km = 6.349;
    base_height_km = 25.0;
    base_rho_kg_m3 = 3.899E-2;
  } else if (altitude_km >= 0.0 && altitude_km < 25.0) {
    scale_height_km = 7.249;
    base_height_km = 0.0;
    base_rho_kg_m3 = 1.225;
  } else {  // In case of altitude_km is minus value
    scale_height_km = 7.249;
    base_height_km = 0.0;
    base_rho_kg_m3 = 0.0;
    return 0.0;
  }

  double rho_kg_m3 = base_rho_kg_m3 * exp(-(altitude_km - base_height_km) / scale_height_km);
  return rho_kg_m3;
}

// ---- International geomagnetic reference field: spherical harmonic synthesis in Gauss coefficients ----
constexpr int kOrder = 20;
}  // namespace ref
extern double ra, rpre, re, re2, re4, rp, rp2, rp4, tzero;
extern int maxod, kg, kgc, kr, kth, kph, kext;
extern double blat, blon, bhi, br, bthe, rlat, slat, slat2, clat2, r, the, phi, cth, sth, cph, sph, x, y, z, f, ext0, ext1, ext2;
extern double gh[20][20], ght[20][20], g[20][20], rar[20], csp[20], snp[20], p[21][20], vgh[20][20], vght[20][20], testglobal[3];
extern char coeff_file[256];
void fcalc();
int TransMagaxisToECI(const double* mag, double* pos, double lonrad, double thetarad, double gmst);
void tcoef(double a[20][20], double at[20][20], double zero, int external, double e[3]);
namespace ref {
//= set_file_path
void set_file_path(const char* name) { strcpy(coeff_file, name); }

//= field
void Field(double equatorial_radius, double flattening, double reference_radius, int order) {
  ra = reference_radius;
  maxod = order;
  rpre = 1.0 - 1.0 / flattening;
  re = equatorial_radius;
  rp = equatorial_radius * (1.0 - 1.0 / flattening);
  re2 = re * re;
  re4 = re * re * re * re;
  rp2 = rp * rp;
  rp4 = rp * rp * rp * rp;
  kg = 2;
  kgc = 0;
  kph = 1;
}

//= tyear
void TYear(double year) {
  g[0][0] = 0.0;
  for (int n = 1; n <= maxod; n++) {
    g[0][n] = gh[0][n] + ght[0][n] * (year - tzero);
    for (int m = 1; m <= n; m++) {
      g[m][n] = gh[m][n] + ght[m][n] * (year - tzero);
      g[n][m - 1] = gh[n][m - 1] + ght[n][m - 1] * (year - tzero);
    }
  }
}

//= tcoef
void TCoef(double a[20][20], double at[20][20], double zero, int external, double e[3]) {
  tzero = zero;
  kext = external;
  gh[0][0] = ght[0][0] = 0.0;
  for (int n = 1; n <= maxod; n++) {
    gh[0][n] = a[0][n];
    ght[0][n] = at[0][n];
    // Schmidt quasi-normalisation
    double factor = sqrt(2.0);
    for (int m = 1; m <= n; m++) {
      factor = factor / sqrt((double)((n + m) * (n - m + 1)));
      gh[m][n] = a[m][n] * factor;
      gh[n][m - 1] = a[n][m - 1] * factor;
      ght[m][n] = at[m][n] * factor;
      ght[n][m - 1] = at[n][m - 1] * factor;
    }
  }
  ext0 = external == 0 ? 0.0 : e[0];
  ext1 = external == 0 ? 0.0 : e[1];
  ext2 = external == 0 ? 0.0 : e[2];
}

//= mfldg leaves=fcalc
void MFldG(double latitude_deg, double longitude_deg, double height, double* north, double* east, double* down, double* total) {
  const double deg = 180.0 / 3.14159265359;
  if (kg != 1 || blat != latitude_deg || bhi != height) {
    kg = kr = kth = 1;
    blat = latitude_deg;
    bhi = height;
    rlat = latitude_deg / deg;
    slat = sin(rlat);
    slat2 = slat * slat;
    clat2 = 1.0 - slat2;
    const double rm2 = re2 * clat2 + rp2 * slat2;
    const double rm = sqrt(rm2);
    r = sqrt((re4 * clat2 + rp4 * slat2) / rm2 + 2.0 * height * rm + height * height);
    cth = slat * (height + rp2 / rm) / r;
    sth = sqrt(1.0 - cth * cth);
    if (sth < 0.00000015) sth = 0.00000015;
  }
  if (kph != 0 || blon != longitude_deg) {
    kph = kph != 0 && !(blon != longitude_deg) ? kph : 1;
    blon = longitude_deg;
    phi = longitude_deg / deg;
    cph = cos(phi);
    sph = sin(phi);
  }
  fcalc();
  *north = x;
  *east = y;
  *down = z;
  *total = f;
}

//= mfldc leaves=fcalc
void MFldC(double colatitude_deg, double longitude_deg, double radius, double* north, double* east, double* down, double* total) {
  const double deg = 180.0 / 3.14159265359;
  if (kg == 0) {
    if (bthe != colatitude_deg) kth = 1;
    if (br != radius) kr = 1;
  } else {
    kg = 0;
    kr = kth = 1;
  }
  if (kr != 0) br = r = radius;
  if (kth != 0) {
    bthe = colatitude_deg;
    the = colatitude_deg / deg;
    cth = cos(the);
    sth = sin(the);
    if (sth < 0.00000015) sth = 0.00000015;
  }
  if (blon != longitude_deg) kph = 1;
  if (kph != 0) {
    blon = longitude_deg;
    phi = longitude_deg / deg;
    cph = cos(phi);
    sph = sin(phi);
  }
  fcalc();
  *north = x;
  *east = y;
  *down = z;
  *total = f;
}

//= igrfc leaves=mfldg
void IgrfC(double latitude_deg, double longitude_deg, double height_m, double* total) {
  double a, b, c;
  mfldg(latitude_deg, longitude_deg, height_m / 1000.0, &a, &b, &c, total);
}

//= fcalc
void FCalc() {
  if (kr != 0) {
    kr = 0;
    rar[0] = ra / r * (ra / r);
    for (int n = 1; n <= maxod; n++) rar[n] = rar[n - 1] * (ra / r);
  }
  if (kth != 0) {
    kth = 0;
    p[0][0] = 1.0;
    p[1][0] = 0.0;
    p[0][1] = cth;
    p[2][0] = -sth;
    p[1][1] = sth;
    p[2][1] = cth;
    for (int n = 2; n <= maxod; n++) {
      p[0][n] = (p[0][n - 1] * cth * (2 * n - 1) - p[0][n - 2] * (n - 1)) / n;
      for (int m = 1; m < n; m++) {
        if (sth > 0.175) {
          p[m][n] = (p[m - 1][n - 1] * (n + m - 1) - p[m - 1][n] * cth * (n - m + 1)) / sth;
        } else {
          p[m][n] = (p[m][n - 1] + p[m - 1][n] * sth * (n - m + 1)) / cth;
        }
      }
      p[n][n] = p[n - 1][n - 1] * sth * (2 * n - 1);
      p[n + 1][0] = -p[1][n];
      for (int m = 1; m < n; m++) p[n + 1][m] = (p[m - 1][n] * (n + m) * (n - m + 1) - p[m + 1][n]) / 2.0;
      p[n + 1][n] = (p[n - 1][n - 1] * cth + p[n][n - 1] * sth) * (2 * n - 1);
    }
  }
  if (kph != 0) {
    kph = 0;
    csp[0] = 1.0;
    snp[0] = 0.0;
    for (int m = 1; m <= maxod; m++) {
      csp[m] = csp[m - 1] * cph - snp[m - 1] * sph;
      snp[m] = snp[m - 1] * cph + csp[m - 1] * sph;
    }
  }
  double sx = 0.0, sy = 0.0, sz = 0.0;
  for (int n = 1; n <= maxod; n++) {
    double tx = g[0][n] * p[n + 1][0];
    double ty = 0.0;
    double tz = g[0][n] * p[0][n];
    for (int m = 1; m <= n; m++) {
      tx += (g[m][n] * csp[m] + g[n][m - 1] * snp[m]) * p[n + 1][m];
      ty += (g[m][n] * snp[m] - g[n][m - 1] * csp[m]) * p[m][n] * m;
      tz += (g[m][n] * csp[m] + g[n][m - 1] * snp[m]) * p[m][n];
    }
    sx += rar[n] * tx;
    sy += rar[n] * ty;
    sz -= rar[n] * tz * (n + 1);
  }
  sy = sy / sth;
  if (kext != 0) {
    const double t = ext1 * cph + ext2 * sph;
    sx -= ext0 * cth + t * sth;
    sy += ext1 * sph - ext2 * cph;
    sz += ext0 * sth - t * cth;
  }
  x = sx;
  y = sy;
  z = sz;
  f = sqrt(sx * sx + sy * sy + sz * sz);
}

//= TransMagaxisToECI
int ToEci(const double* mag, double* out, double longitude_rad, double colatitude_rad, double sidereal) {
  const double deg = 0.017453292519943295769236907684886;
  RotationY(mag, out, 180 * deg - colatitude_rad);
  RotationZ(out, out, -longitude_rad);
  RotationZ(out, out, -sidereal);
  return 0;
}

//= IgrfCalc leaves=gigrf,tyear,igrfc,TransMagaxisToECI
void Igrf(double year, double latitude_rad, double longitude_rad, double altitude, double sidereal, double* mag) {
  static bool first = true;
  const double to_deg = 180 / 3.14159265358979323846;
  if (first) {
    gigrf(13, year);
    first = false;
  }
  tyear(year);
  igrfc(latitude_rad * to_deg, longitude_rad * to_deg, altitude, &f);
  testglobal[0] = mag[0] = x;
  testglobal[1] = mag[1] = y;
  testglobal[2] = mag[2] = z;
  TransMagaxisToECI(mag, mag, longitude_rad, acos(cth), sidereal);
}

//= gigrf leaves=field,tcoef,tyear
void GIgrf(int generation, double year) {
  // Coefficient file of the given generation: order, number of columns and period in line 1, the epochs in line 2,
  // one coefficient per line from line 3 on, the secular variation in the last column.
  if (generation < 1 || generation > 13) exit(1);
  char file[256];
  strcpy(file, coeff_file);
  char* number = strstr(file, "13");
  if (number == NULL) exit(1);
  char buf[460];
  snprintf(buf, 460, "%02d", generation);
  strncpy(number, buf, 2);
  FILE* fp = fopen(file, "r");
  if (fp == NULL) exit(1);
  if (fgets(buf, 460, fp) == NULL) exit(1);
  int columns;
  double first, last;
  if (sscanf(buf, "%d%d%lf%lf", &maxod, &columns, &first, &last) != 4) exit(1);
  if (maxod < 8 || maxod > 19 || columns < 2 || columns > 50) exit(1);
  const int lines = (maxod + 1) * (maxod + 1) - 1;
  if (fgets(buf, 460, fp) == NULL) exit(1);
  // find the epoch column
  char* at = &buf[1];
  int n;
  double previous = 0.0, epoch = 0.0;
  if (sscanf(at, "%*c%*d%*d%lf%n", &epoch, &n) == EOF) exit(1);
  int column;
  for (column = 2; column < columns; column++) {
    at += n;
    previous = epoch;
    if (sscanf(at, "%lf%n", &epoch, &n) == EOF) exit(1);
    if (year < epoch) break;
  }
  double coefficient[399], rate[399];
  for (int i = 0; i < lines; i++) {
    if (fgets(buf, 460, fp) == NULL) exit(1);
    at = &buf[0];
    if (sscanf(at, "%*c%*d%*d%n", &n) == EOF) exit(1);
    for (int m = 2; m < column; m++) {
      at += n;
      if (sscanf(at, "%*f%n", &n) == EOF) exit(1);
    }
    at += n;
    if (sscanf(at, "%lf%lf", &coefficient[i], &rate[i]) != 2) exit(1);
  }
  if (column == columns) {
    tzero = epoch;
  } else {
    tzero = previous;
    for (int i = 0; i < lines; i++) rate[i] = (rate[i] - coefficient[i]) / (epoch - previous);
  }
  int order = 0;
  int i = 0;
  for (int n = 1; n <= maxod; n++) {
    vgh[0][n] = coefficient[i];
    vght[0][n] = rate[i];
    i++;
    if (coefficient[i] != 0.0 || rate[i] != 0.0) order = n;
    for (int m = 1; m <= n; m++) {
      vgh[m][n] = coefficient[i];
      vght[m][n] = rate[i];
      i++;
      if (coefficient[i] != 0.0 || rate[i] != 0.0) order = n;
      vgh[n][m - 1] = coefficient[i];
      vght[n][m - 1] = rate[i];
      i++;
      if (coefficient[i] != 0.0 || rate[i] != 0.0) order = n;
    }
  }
  maxod = order;
  double none[3];
  field(6378.137, 298.25722, 6371.2, maxod);
  tcoef(vgh, vght, tzero, 0, none);
  tyear(year);
}

// ---- NRLMSISE-00 ----
}  // namespace ref
namespace s2e::atmosphere {
extern double decyear_monthly;
int LeapYear(int year);
void ConvertDaysToMonthDay(int days, int is_leap_year, int* month_day);
void ConvertDecyearToDate(double decyear, int* date);
double ConvertDateToDecyear(int year, int month, int day);
int ConvertMonthStrToMonthNum(std::string month_str);
}  // namespace s2e::atmosphere
namespace s2e::atmosphere::ref {
//= s2e::atmosphere::LeapYear
int R_LeapYear(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }

//= s2e::atmosphere::ConvertDaysToMonthDay
void R_ConvertDaysToMonthDay(int days, int leap, int* md) {
  const int february = leap ? 29 : 28;
  int last[12];  // last day of the year of each month
  last[0] = 31;
  last[1] = 31 + february;
  last[2] = last[1] + 31;
  last[3] = last[1] + 61;
  last[4] = last[1] + 92;
  last[5] = last[1] + 122;
  last[6] = last[1] + 153;
  last[7] = last[1] + 184;
  last[8] = last[1] + 214;
  last[9] = last[1] + 245;
  last[10] = last[1] + 275;
  last[11] = last[1] + 306;
  if (days <= last[0]) {
    md[0] = 1;
    md[1] = days;
    return;
  }
  for (int m = 1; m < 12; m++) {
    if (days <= last[m]) {
      md[0] = m + 1;
      md[1] = days - last[m - 1];
      return;
    }
  }
}

//= s2e::atmosphere::ConvertDecyearToDate leaves=s2e::atmosphere::ConvertDaysToMonthDay,s2e::atmosphere::LeapYear
void R_ConvertDecyearToDate(double decyear, int* date) {
  const int year = (int)decyear;
  const int leap = s2e::atmosphere::LeapYear(year);
  const double d = (decyear - year) * (leap ? 366 : 365);
  const double h = (d - (int)d) * 24;
  const double m = (h - (int)h) * 60;
  const double s = (m - (int)m) * 60;
  int md[2];
  s2e::atmosphere::ConvertDaysToMonthDay((int)d == 0 ? 1 : (int)d, leap, md);
  date[0] = year;
  date[1] = md[0];
  date[2] = md[1];
  date[3] = (int)h;
  date[4] = (int)m;
  date[5] = (int)s;
}

//= s2e::atmosphere::ConvertDateToDecyear leaves=s2e::atmosphere::LeapYear
double R_ConvertDateToDecyear(int year, int month, int day) {
  const int leap = s2e::atmosphere::LeapYear(year);
  int length[12] = {31, leap ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return (double)year + ((double)std::accumulate(length, length + month - 1, 0) + (double)day) / (leap ? 366.0 : 365.0);
}

//= s2e::atmosphere::ConvertMonthStrToMonthNum
int R_ConvertMonthStrToMonthNum(std::string m) {
  return m == "Jan" ? 1 : m == "Feb" ? 2 : m == "Mar" ? 3 : m == "Apr" ? 4 : m == "May" ? 5 : m == "Jun" ? 6 : m == "Jul" ? 7 : m == "Aug" ? 8
         : m == "Sep" ? 9 : m == "Oct" ? 10 : m == "Nov" ? 11 : m == "Dec" ? 12 : 0;
}

//= s2e::atmosphere::CalcNRLMSISE00 leaves=s2e::atmosphere::ConvertDecyearToDate
double R_CalcNRLMSISE00(double decyear, double latitude_rad, double longitude_rad, double altitude_m, const std::vector<nrlmsise_table>& table, bool manual,
                      double f107, double f107a, double ap) {
  int date[6];
  ConvertDecyearToDate(decyear, date);
  nrlmsise_flags flags;
  for (int i = 0; i < 24; i++) flags.switches[i] = 1;
  nrlmsise_input in;
  in.year = 0;
  in.doy = (int)((decyear - (int)decyear) * 365.25);
  in.sec = date[3] * 3600.0 + date[4] * 60.0 + date[5];
  in.alt = altitude_m / 1000.0;
  in.g_lat = latitude_rad * s2e::math::rad_to_deg;
  in.g_long = longitude_rad * s2e::math::rad_to_deg;
  in.lst = in.sec / 3600.0 + in.g_long / 15.0;
  if (manual) {
    in.f107 = f107;
    in.f107A = f107a;
    in.ap = ap;
  } else {
    if (table.size() == 0) return 0.0;
    size_t row = 0;
    for (size_t i = 0; i < table.size(); i++) {
      const bool month = date[0] == table[i].year && date[1] == table[i].month;
      // daily rows until the monthly predictions start
      if (month && (!(decyear < decyear_monthly) || date[2] == table[i].day)) {
        row = i;
        break;
      }
    }
    in.f107A = table[row].Ctr81_adj;
    in.f107 = table[row].F107_adj;
    in.ap = table[row].Ap_avg;
  }
  ap_array aph;
  for (int i = 0; i < 7; i++) aph.a[i] = in.ap;
  in.ap_a = &aph;
  nrlmsise_output out;
  gtd7(&in, &flags, &out);
  return out.d[5];
}

//= s2e::atmosphere::GetSpaceWeatherTable_ leaves=s2e::atmosphere::ConvertDecyearToDate,s2e::atmosphere::ConvertDateToDecyear,s2e::atmosphere::ConvertMonthStrToMonthNum
size_t R_GetSpaceWeatherTable_(double decyear, double endsec, const std::string& filename, std::vector<nrlmsise_table>& table) {
  std::ifstream file(filename);
  if (!file.is_open()) return 0;
  int start[6];
  int end[6];
  ConvertDecyearToDate(decyear, start);
  ConvertDecyearToDate(decyear + endsec / 86400.0 / 365.0, end);
  std::string line;
  while (getline(file, line)) {
    std::string head = line.substr(0, 4);
    if (!std::all_of(head.cbegin(), head.cend(), ::isdigit) || head.empty()) {
      if (head == "UPDA") {
        const int year = atoi(line.substr(8, 4).c_str());
        const int month = ConvertMonthStrToMonthNum(line.substr(13, 3).c_str());
        const int day = atoi(line.substr(17, 2).c_str());
        const int length[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        decyear_monthly = ConvertDateToDecyear(year, month, day) + (length[month % 12] + 14) / 365.0;
      }
      continue;
    }
    nrlmsise_table row;
    row.year = atoi(head.c_str());
    row.month = atoi(line.substr(5, 2).c_str());
    row.day = atoi(line.substr(8, 2).c_str());
    const double at = ConvertDateToDecyear(row.year, row.month, row.day);
    if (at < ConvertDateToDecyear(start[0], start[1], start[2]) - 31.0 / 365.0) continue;
    if (at > ConvertDateToDecyear(end[0], end[1], end[2])) continue;
    row.Ap_avg = atof(line.substr(80, 3).c_str());
    row.F107_adj = atof(line.substr(93, 5).c_str());
    row.Ctr81_adj = atof(line.substr(101, 5).c_str());
    row.Lst81_adj = atof(line.substr(107, 5).c_str());
    row.F107_obs = atof(line.substr(113, 5).c_str());
    row.Ctr81_obs = atof(line.substr(119, 5).c_str());
    row.Lst81_obs = atof(line.substr(125, 5).c_str());
    table.push_back(row);
  }
  return table.size();
}
}  // namespace s2e::atmosphere::ref
