// Reference specification for C26 (parsed, never compiled to code or run).
#include "base.hpp"
#include <algorithm>
#include <cmath>
#include <string>
#include "components/real/communication/antenna.hpp"
#include "components/real/communication/antenna_radiation_pattern.hpp"
#include "components/real/communication/ground_station_calculator.hpp"
#include "environment/global/physical_constants.hpp"
#include "logger/log_utility.hpp"
#include "logger/logger.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/s2e_math.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "simulation/ground_station/ground_station.hpp"
#include "utilities/macros.hpp"
// ---------------------------------------------------------------- components/real/communication/antenna.cpp
namespace s2e::components::ref {
//= s2e::components::Antenna::Antenna(constint,consts2e::math::Quaternion&,constbool,constbool,constdouble,consts2e::math::Vector<5,double>,consts2e::math::Vector<4,double>)
void Antenna_Ctor(Antenna* self, const int component_id, const math::Quaternion& quaternion_b2c, const bool is_transmitter, const bool is_receiver, const double frequency_MHz, const math::Vector<5> tx_parameters, const math::Vector<4> rx_parameters) {
  self->component_id_ = component_id;
  self->is_transmitter_ = is_transmitter;
  self->is_receiver_ = is_receiver;
  self->frequency_MHz_ = frequency_MHz;

  self->quaternion_b2c_ = quaternion_b2c;

  // Parameters
  self->tx_output_power_W_ = tx_parameters[0];
  self->tx_parameters_.gain_dBi_ = tx_parameters[1];
  self->tx_parameters_.loss_feeder_dB_ = tx_parameters[2];
  self->tx_parameters_.loss_pointing_dB_ = tx_parameters[3];
  self->tx_bitrate_bps_ = tx_parameters[4];

  self->rx_parameters_.gain_dBi_ = rx_parameters[0];
  self->rx_parameters_.loss_feeder_dB_ = rx_parameters[1];
  self->rx_parameters_.loss_pointing_dB_ = rx_parameters[2];
  self->rx_system_noise_temperature_K_ = rx_parameters[3];

  // Antenna gain
  self->tx_parameters_.antenna_gain_model = AntennaGainModel::kIsotropic;
  self->rx_parameters_.antenna_gain_model = AntennaGainModel::kIsotropic;

  // Calculate the EIRP or GT for the maximum gain
  if (self->is_transmitter_) {
    self->tx_eirp_dBW_ = 10 * log10(self->tx_output_power_W_) + self->tx_parameters_.loss_feeder_dB_ + self->tx_parameters_.loss_pointing_dB_;
  } else {
    self->tx_eirp_dBW_ = 0.0;
  }
  if (self->is_receiver_) {
    self->rx_gt_dBK_ = self->rx_parameters_.loss_feeder_dB_ + self->rx_parameters_.loss_pointing_dB_ - 10 * std::log10(self->rx_system_noise_temperature_K_);
  } else {
    self->rx_gt_dBK_ = 0.0;
  }
}
//= s2e::components::Antenna::Antenna(constint,consts2e::math::Quaternion&,constbool,constbool,constdouble,constdouble,constdouble,consts2e::components::AntennaParameters,constdouble,consts2e::components::AntennaParameters)
void Antenna_Ctor2(Antenna* self, const int component_id, const math::Quaternion& quaternion_b2c, const bool is_transmitter, const bool is_receiver, const double frequency_MHz, const double tx_bitrate_bps, const double tx_output_power_W, const AntennaParameters tx_parameters, const double rx_system_noise_temperature_K, const AntennaParameters rx_parameters) {
  self->component_id_ = component_id;
  self->quaternion_b2c_ = quaternion_b2c;
  self->is_transmitter_ = is_transmitter;
  self->is_receiver_ = is_receiver;
  self->frequency_MHz_ = frequency_MHz;
  self->tx_bitrate_bps_ = tx_bitrate_bps;
  self->tx_output_power_W_ = tx_output_power_W;
  self->tx_parameters_ = tx_parameters;
  self->rx_system_noise_temperature_K_ = rx_system_noise_temperature_K;
  self->rx_parameters_ = rx_parameters;

  // Calculate the EIRP or GT for the maximum gain
  if (self->is_transmitter_) {
    self->tx_eirp_dBW_ = 10 * log10(self->tx_output_power_W_) + self->tx_parameters_.loss_feeder_dB_ + self->tx_parameters_.loss_pointing_dB_;
  } else {
    self->tx_eirp_dBW_ = 0.0;
  }
  if (self->is_receiver_) {
    self->rx_gt_dBK_ = self->rx_parameters_.loss_feeder_dB_ + self->rx_parameters_.loss_pointing_dB_ - 10 * std::log10(self->rx_system_noise_temperature_K_);
  } else {
    self->rx_gt_dBK_ = 0.0;
  }
}
//= s2e::components::Antenna::CalcAntennaGain
double Antenna_CalcAntennaGain(Antenna* self, const AntennaParameters antenna_parameters, const double theta_rad, const double phi_rad) {
  double gain_dBi = 0.0;
  switch (antenna_parameters.antenna_gain_model) {
    case AntennaGainModel::kIsotropic:
      gain_dBi = antenna_parameters.gain_dBi_;
      break;
    case AntennaGainModel::kRadiationPatternCsv:
      gain_dBi = antenna_parameters.radiation_pattern.GetGain_dBi(theta_rad, phi_rad);
      break;
    default:
      break;
  }
  return gain_dBi;
}
//= s2e::components::Antenna::CalcTxEirp_dBW
double Antenna_CalcTxEirp_dBW(Antenna* self, const double theta_rad, const double phi_rad) {
  return self->tx_eirp_dBW_ + self->CalcAntennaGain(self->tx_parameters_, theta_rad, phi_rad);
}
//= s2e::components::Antenna::CalcRxGt_dB_K
double Antenna_CalcRxGt_dB_K(Antenna* self, const double theta_rad, const double phi_rad) {
  return self->rx_gt_dBK_ + self->CalcAntennaGain(self->rx_parameters_, theta_rad, phi_rad);
}
//= s2e::components::SetAntennaGainModel
AntennaGainModel _SetAntennaGainModel(const std::string gain_model_name) {
  if (gain_model_name == "ISOTROPIC") {
    return AntennaGainModel::kIsotropic;
  } else if (gain_model_name == "RADIATION_PATTERN_CSV") {
    return AntennaGainModel::kRadiationPatternCsv;
  } else {
    return AntennaGainModel::kIsotropic;
  }
}
//= s2e::components::InitAntenna
Antenna _InitAntenna(const int antenna_id, const std::string file_name) {
  setting_file_reader::IniAccess antenna_conf(file_name);

  const std::string section_name = "ANTENNA_" + std::to_string(static_cast<long long>(antenna_id));

  math::Quaternion quaternion_b2c;
  antenna_conf.ReadQuaternion(section_name.c_str(), "quaternion_b2c", quaternion_b2c);

  bool is_transmitter = antenna_conf.ReadBoolean(section_name.c_str(), "is_transmitter");
  bool is_receiver = antenna_conf.ReadBoolean(section_name.c_str(), "is_receiver");
  double frequency_MHz = antenna_conf.ReadDouble(section_name.c_str(), "frequency_MHz");

  double tx_bitrate_bps = antenna_conf.ReadDouble(section_name.c_str(), "tx_bitrate_bps");
  double tx_output_power_W = antenna_conf.ReadDouble(section_name.c_str(), "tx_output_W");
  double rx_system_noise_temperature_K = antenna_conf.ReadDouble(section_name.c_str(), "rx_system_noise_temperature_K");

  AntennaParameters tx_parameters;
  if (is_transmitter) {
    tx_parameters.gain_dBi_ = antenna_conf.ReadDouble(section_name.c_str(), "tx_gain_dBi");
    tx_parameters.loss_feeder_dB_ = antenna_conf.ReadDouble(section_name.c_str(), "tx_loss_feeder_dB");
    tx_parameters.loss_pointing_dB_ = antenna_conf.ReadDouble(section_name.c_str(), "tx_loss_pointing_dB");
    tx_parameters.antenna_gain_model = SetAntennaGainModel(antenna_conf.ReadString(section_name.c_str(), "tx_antenna_gain_model"));
    size_t length_theta = antenna_conf.ReadInt(section_name.c_str(), "tx_length_theta");
    size_t length_phi = antenna_conf.ReadInt(section_name.c_str(), "tx_length_phi");
    double theta_max_rad = antenna_conf.ReadDouble(section_name.c_str(), "tx_theta_max_rad");
    double phi_max_rad = antenna_conf.ReadDouble(section_name.c_str(), "tx_phi_max_rad");
    tx_parameters.radiation_pattern = AntennaRadiationPattern(antenna_conf.ReadString(section_name.c_str(), "tx_antenna_radiation_pattern_file"),
                                                              length_theta, length_phi, theta_max_rad, phi_max_rad);
  } else {
    tx_parameters.gain_dBi_ = 0.0;
    tx_parameters.loss_feeder_dB_ = 0.0;
    tx_parameters.loss_pointing_dB_ = 0.0;
    tx_parameters.antenna_gain_model = AntennaGainModel::kIsotropic;
  }

  AntennaParameters rx_parameters;
  if (is_receiver) {
    rx_parameters.gain_dBi_ = antenna_conf.ReadDouble(section_name.c_str(), "rx_gain_dBi");
    rx_parameters.loss_feeder_dB_ = antenna_conf.ReadDouble(section_name.c_str(), "rx_loss_feeder_dB");
    rx_parameters.loss_pointing_dB_ = antenna_conf.ReadDouble(section_name.c_str(), "rx_loss_pointing_dB");
    rx_parameters.antenna_gain_model = SetAntennaGainModel(antenna_conf.ReadString(section_name.c_str(), "rx_antenna_gain_model"));
    rx_parameters.radiation_pattern = AntennaRadiationPattern(antenna_conf.ReadString(section_name.c_str(), "rx_antenna_radiation_pattern_file"));
    size_t length_theta = antenna_conf.ReadInt(section_name.c_str(), "rx_length_theta");
    size_t length_phi = antenna_conf.ReadInt(section_name.c_str(), "rx_length_phi");
    double theta_max_rad = antenna_conf.ReadDouble(section_name.c_str(), "rx_theta_max_rad");
    double phi_max_rad = antenna_conf.ReadDouble(section_name.c_str(), "rx_phi_max_rad");
    rx_parameters.radiation_pattern = AntennaRadiationPattern(antenna_conf.ReadString(section_name.c_str(), "rx_antenna_radiation_pattern_file"),
                                                              length_theta, length_phi, theta_max_rad, phi_max_rad);
  } else {
    rx_parameters.gain_dBi_ = 0.0;
    rx_parameters.loss_feeder_dB_ = 0.0;
    rx_parameters.loss_pointing_dB_ = 0.0;
    rx_parameters.antenna_gain_model = AntennaGainModel::kIsotropic;
  }

  Antenna antenna(antenna_id, quaternion_b2c, is_transmitter, is_receiver, frequency_MHz, tx_bitrate_bps, tx_output_power_W, tx_parameters,
                  rx_system_noise_temperature_K, rx_parameters);
  return antenna;
}
}

// ---------------------------------------------------------------- components/real/communication/antenna.hpp
namespace s2e::components::ref {
//= s2e::components::Antenna::GetFrequency_MHz
double Antenna_GetFrequency_MHz(Antenna* self) { return self->frequency_MHz_; }
//= s2e::components::Antenna::GetBitrate_bps
double Antenna_GetBitrate_bps(Antenna* self) { return self->tx_bitrate_bps_; }
//= s2e::components::Antenna::GetQuaternion_b2c
math::Quaternion Antenna_GetQuaternion_b2c(Antenna* self) { return self->quaternion_b2c_; }
//= s2e::components::Antenna::IsTransmitter
bool Antenna_IsTransmitter(Antenna* self) { return self->is_transmitter_; }
//= s2e::components::Antenna::IsReceiver
bool Antenna_IsReceiver(Antenna* self) { return self->is_receiver_; }
}

// ---------------------------------------------------------------- components/real/communication/antenna_radiation_pattern.cpp
namespace s2e::components::ref {
//= s2e::components::AntennaRadiationPattern::AntennaRadiationPattern()
void AntennaRadiationPattern_Ctor(AntennaRadiationPattern* self) {
  self->length_theta_ = 360;
  self->length_phi_ = 181;
  self->theta_max_rad_ = math::tau;
  self->phi_max_rad_ = math::pi;
 self->gain_dBi_.assign(self->length_theta_, std::vector<double>(self->length_phi_, 0.0)); }
//= s2e::components::AntennaRadiationPattern::AntennaRadiationPattern(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,constunsignedlong,constunsignedlong,constdouble,constdouble)
void AntennaRadiationPattern_Ctor2(AntennaRadiationPattern* self, const std::string file_path, const size_t length_theta, const size_t length_phi, const double theta_max_rad, const double phi_max_rad) {
  self->length_theta_ = length_theta;
  self->length_phi_ = length_phi;
  self->theta_max_rad_ = theta_max_rad;
  self->phi_max_rad_ = phi_max_rad;

  setting_file_reader::IniAccess gain_file(file_path);
  gain_file.ReadCsvDouble(self->gain_dBi_, (std::max)(self->length_theta_, self->length_phi_));
}
//= s2e::components::AntennaRadiationPattern::GetGain_dBi
double AntennaRadiationPattern_GetGain_dBi(AntennaRadiationPattern* self, const double theta_rad, const double phi_rad) {
  // Argument check
  double theta_rad_clipped = theta_rad;
  double phi_rad_clipped = phi_rad;
  if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
  if (theta_rad_clipped > self->theta_max_rad_) theta_rad_clipped = self->theta_max_rad_;
  if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
  if (phi_rad_clipped > self->phi_max_rad_) phi_rad_clipped = self->phi_max_rad_;

  // Calc index
  size_t theta_idx = (size_t)(self->length_theta_ * theta_rad_clipped / self->theta_max_rad_ + 0.5);
  if (theta_idx >= self->length_theta_) theta_idx = self->length_theta_ - 1;
  size_t phi_idx = (size_t)(self->length_phi_ * phi_rad_clipped / self->phi_max_rad_ + 0.5);
  if (phi_idx >= self->length_phi_) phi_idx = self->length_phi_ - 1;

  return self->gain_dBi_[theta_idx][phi_idx];
}
}

// ---------------------------------------------------------------- components/real/communication/ground_station_calculator.cpp
namespace s2e::components::ref {
//= s2e::components::GroundStationCalculator::GroundStationCalculator
void GroundStationCalculator_Ctor(GroundStationCalculator* self, const double loss_polarization_dB, const double loss_atmosphere_dB, const double loss_rainfall_dB, const double loss_others_dB, const double ebn0_dB, const double hardware_deterioration_dB, const double coding_gain_dB, const double margin_requirement_dB, const double downlink_bitrate_bps) {
  self->loss_polarization_dB_ = loss_polarization_dB;
  self->loss_atmosphere_dB_ = loss_atmosphere_dB;
  self->loss_rainfall_dB_ = loss_rainfall_dB;
  self->loss_others_dB_ = loss_others_dB;
  self->ebn0_dB_ = ebn0_dB;
  self->hardware_deterioration_dB_ = hardware_deterioration_dB;
  self->coding_gain_dB_ = coding_gain_dB;
  self->margin_requirement_dB_ = margin_requirement_dB;
  self->downlink_bitrate_bps_ = downlink_bitrate_bps;

  self->max_bitrate_Mbps_ = 0.0;
  self->receive_margin_dB_ = -10000.0;  // FIXME: which value is suitable?
}
//= s2e::components::GroundStationCalculator::Update
void GroundStationCalculator_Update(GroundStationCalculator* self, const spacecraft::Spacecraft& spacecraft, const Antenna& spacecraft_tx_antenna, const ground_station::GroundStation& ground_station, const Antenna& ground_station_rx_antenna) {
  bool is_visible = ground_station.IsVisible(spacecraft.GetSpacecraftId());
  if (is_visible) {
    self->max_bitrate_Mbps_ = self->CalcMaxBitrate(spacecraft.GetDynamics(), spacecraft_tx_antenna, ground_station, ground_station_rx_antenna);
    self->receive_margin_dB_ = self->CalcReceiveMarginOnGs(spacecraft.GetDynamics(), spacecraft_tx_antenna, ground_station, ground_station_rx_antenna);
  } else {
    self->max_bitrate_Mbps_ = 0.0;
    self->receive_margin_dB_ = -10000.0;  // FIXME: which value is suitable?
  }
}
//= s2e::components::GroundStationCalculator::CalcMaxBitrate
double GroundStationCalculator_CalcMaxBitrate(GroundStationCalculator* self, const dynamics::Dynamics& dynamics, const Antenna& spacecraft_tx_antenna, const ground_station::GroundStation& ground_station, const Antenna& ground_station_rx_antenna) {
  double cn0_dBHz = self->CalcCn0OnGs(dynamics, spacecraft_tx_antenna, ground_station, ground_station_rx_antenna);

  double margin_for_bitrate_dB = cn0_dBHz - (self->ebn0_dB_ + self->hardware_deterioration_dB_ + self->coding_gain_dB_) - self->margin_requirement_dB_;

  if (margin_for_bitrate_dB > 0) {
    return pow(10.0, margin_for_bitrate_dB / 10.0) / 1000000.0;
  } else {
    return 0.0;
  }
}
//= s2e::components::GroundStationCalculator::CalcReceiveMarginOnGs
double GroundStationCalculator_CalcReceiveMarginOnGs(GroundStationCalculator* self, const dynamics::Dynamics& dynamics, const Antenna& spacecraft_tx_antenna, const ground_station::GroundStation& ground_station, const Antenna& ground_station_rx_antenna) {
  double cn0_dB = self->CalcCn0OnGs(dynamics, spacecraft_tx_antenna, ground_station, ground_station_rx_antenna);
  double cn0_requirement_dB = self->ebn0_dB_ + self->hardware_deterioration_dB_ + self->coding_gain_dB_ + 10.0 * log10(spacecraft_tx_antenna.GetBitrate_bps());
  return cn0_dB - cn0_requirement_dB;
}
//= s2e::components::GroundStationCalculator::CalcCn0OnGs
double GroundStationCalculator_CalcCn0OnGs(GroundStationCalculator* self, const dynamics::Dynamics& dynamics, const Antenna& spacecraft_tx_antenna, const ground_station::GroundStation& ground_station, const Antenna& ground_station_rx_antenna) {
  if (!spacecraft_tx_antenna.IsTransmitter() || !ground_station_rx_antenna.IsReceiver()) {
    // Check compatibility of transmitter and receiver
    return 0.0f;
  }
  // Free space path loss
  math::Vector<3> sc_pos_i = dynamics.GetOrbit().GetPosition_i_m();
  math::Vector<3> gs_pos_i = ground_station.GetPosition_i_m();
  math::Vector<3> pos_gs2sc_i = sc_pos_i - gs_pos_i;

  double dist_sc_gs_km = pos_gs2sc_i.CalcNorm() / 1000.0;
  double loss_space_dB = -20.0 * log10(4.0 * math::pi * dist_sc_gs_km / (300.0 / spacecraft_tx_antenna.GetFrequency_MHz() / 1000.0));

  // GS direction on SC TX antenna frame
  math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
  sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
  math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
  double theta_on_sc_antenna_rad = acos(std::max(-1.0, std::min(1.0, gs_direction_on_sc_frame[2])));
  double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);

  // SC direction on GS RX antenna frame
  math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
  gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
  math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
  double theta_on_gs_antenna_rad = acos(std::max(-1.0, std::min(1.0, sc_direction_on_gs_frame[2])));
  double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);

  // Calc CN0
  double cn0_dBHz = spacecraft_tx_antenna.CalcTxEirp_dBW(theta_on_sc_antenna_rad, phi_on_sc_antenna_rad) + loss_space_dB + self->loss_polarization_dB_ +
                    self->loss_atmosphere_dB_ + self->loss_rainfall_dB_ + self->loss_others_dB_ +
                    ground_station_rx_antenna.CalcRxGt_dB_K(theta_on_gs_antenna_rad, phi_on_gs_antenna_rad) -
                    10.0 * log10(environment::boltzmann_constant_J_K);
  return cn0_dBHz;
}
//= s2e::components::InitGsCalculator
GroundStationCalculator _InitGsCalculator(const std::string file_name) {
  setting_file_reader::IniAccess gs_conf(file_name);

  char Section[30] = "GROUND_STATION_CALCULATOR";

  double loss_polarization_dB = gs_conf.ReadDouble(Section, "loss_polarization_dB");
  double loss_atmosphere_dB = gs_conf.ReadDouble(Section, "loss_atmosphere_dB");
  double loss_rainfall_dB = gs_conf.ReadDouble(Section, "loss_rainfall_dB");
  double loss_others_dB = gs_conf.ReadDouble(Section, "loss_others_dB");
  double ebn0_dB = gs_conf.ReadDouble(Section, "ebn0_dB");
  double hardware_deterioration_dB = gs_conf.ReadDouble(Section, "hardware_deterioration_dB");
  double coding_gain_dB = gs_conf.ReadDouble(Section, "coding_gain_dB");
  double margin_requirement_dB = gs_conf.ReadDouble(Section, "margin_requirement_dB");
  double downlink_bitrate_bps = gs_conf.ReadDouble(Section, "downlink_bitrate_bps");

  GroundStationCalculator gs_calculator(loss_polarization_dB, loss_atmosphere_dB, loss_rainfall_dB, loss_others_dB, ebn0_dB,
                                        hardware_deterioration_dB, coding_gain_dB, margin_requirement_dB, downlink_bitrate_bps);
  return gs_calculator;
}
}

// ---------------------------------------------------------------- components/real/communication/ground_station_calculator.hpp
namespace s2e::components::ref {
//= s2e::components::GroundStationCalculator::GetMaxBitrate_Mbps
double GroundStationCalculator_GetMaxBitrate_Mbps(GroundStationCalculator* self) { return self->max_bitrate_Mbps_; }
//= s2e::components::GroundStationCalculator::GetReceiveMargin_dB
double GroundStationCalculator_GetReceiveMargin_dB(GroundStationCalculator* self) { return self->receive_margin_dB_; }
//= s2e::components::GroundStationCalculator::SetDownlinkBitrate_bps
void GroundStationCalculator_SetDownlinkBitrate_bps(GroundStationCalculator* self, const double downlink_bitrate_bps) { self->downlink_bitrate_bps_ = downlink_bitrate_bps; }
}

// ---------------------------------------------------------------- simulation/ground_station/ground_station.cpp
namespace s2e::ground_station::ref {
//= s2e::ground_station::GroundStation::GroundStation
void GroundStation_Ctor(GroundStation* self, const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
  self->ground_station_id_ = ground_station_id;
  self->position_ecef_m_ = math::Vector<3>{0.0};
  self->position_i_m_ = math::Vector<3>{0.0};

  self->Initialize(configuration, self->ground_station_id_);
  self->number_of_spacecraft_ = configuration->number_of_simulated_spacecraft_;
  for (unsigned int i = 0; i < self->number_of_spacecraft_; i++) {
    self->is_visible_[i] = false;
  }
}
//= s2e::ground_station::GroundStation::Initialize
void GroundStation_Initialize(GroundStation* self, const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
  std::string gs_ini_path = configuration->ground_station_file_list_[0];
  auto conf = setting_file_reader::IniAccess(gs_ini_path);

  const char* section_base = "GROUND_STATION_";
  const std::string section_tmp = section_base + std::to_string(static_cast<long long>(ground_station_id));
  const char* Section = section_tmp.data();

  double latitude_deg = conf.ReadDouble(Section, "latitude_deg");
  double longitude_deg = conf.ReadDouble(Section, "longitude_deg");
  double height_m = conf.ReadDouble(Section, "height_m");
  self->geodetic_position_ = geodesy::GeodeticPosition(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, height_m);
  self->position_ecef_m_ = self->geodetic_position_.CalcEcefPosition();

  self->elevation_limit_angle_deg_ = conf.ReadDouble(Section, "elevation_limit_angle_deg");

  configuration->main_logger_->CopyFileToLogDirectory(gs_ini_path);
}
//= s2e::ground_station::GroundStation::LogSetup
void GroundStation_LogSetup(GroundStation* self, logger::Logger& logger) { logger.AddLogList(self); }
//= s2e::ground_station::GroundStation::Update
void GroundStation_Update(GroundStation* self, const environment::EarthRotation& celestial_rotation, const spacecraft::Spacecraft& spacecraft) {
  math::Matrix<3, 3> dcm_ecef2eci = celestial_rotation.GetDcmJ2000ToEcef().Transpose();
  self->position_i_m_ = dcm_ecef2eci * self->position_ecef_m_;

  self->is_visible_[spacecraft.GetSpacecraftId()] = self->CalcIsVisible(spacecraft.GetDynamics().GetOrbit().GetPosition_ecef_m());
}
//= s2e::ground_station::GroundStation::CalcIsVisible
bool GroundStation_CalcIsVisible(GroundStation* self, const math::Vector<3> spacecraft_position_ecef_m) {
  math::Quaternion q_ecef_to_ltc = self->geodetic_position_.GetQuaternionXcxfToLtc();

  math::Vector<3> sc_pos_ltc = q_ecef_to_ltc.FrameConversion(spacecraft_position_ecef_m - self->position_ecef_m_);  // Satellite position in LTC frame [m]
  sc_pos_ltc = sc_pos_ltc.CalcNormalizedVector();
  math::Vector<3> dir_gs_to_zenith = math::Vector<3>(0);
  dir_gs_to_zenith[2] = 1;

  // Judge the satellite position angle is over the minimum elevation

  if (dot(sc_pos_ltc, dir_gs_to_zenith) > sin(self->elevation_limit_angle_deg_ * math::deg_to_rad)) {
    return true;
  } else {
    return false;
  }
}
}

// ---------------------------------------------------------------- simulation/ground_station/ground_station.hpp
namespace s2e::ground_station::ref {
//= s2e::ground_station::GroundStation::GetGroundStationId
int GroundStation_GetGroundStationId(GroundStation* self) { return self->ground_station_id_; }
//= s2e::ground_station::GroundStation::GetGeodeticPosition
geodesy::GeodeticPosition GroundStation_GetGeodeticPosition(GroundStation* self) { return self->geodetic_position_; }
//= s2e::ground_station::GroundStation::GetPosition_ecef_m
math::Vector<3> GroundStation_GetPosition_ecef_m(GroundStation* self) { return self->position_ecef_m_; }
//= s2e::ground_station::GroundStation::GetPosition_i_m
math::Vector<3> GroundStation_GetPosition_i_m(GroundStation* self) { return self->position_i_m_; }
//= s2e::ground_station::GroundStation::GetElevationLimitAngle_deg
double GroundStation_GetElevationLimitAngle_deg(GroundStation* self) { return self->elevation_limit_angle_deg_; }
//= s2e::ground_station::GroundStation::IsVisible
bool GroundStation_IsVisible(GroundStation* self, const unsigned int spacecraft_id) { return self->is_visible_.at(spacecraft_id); }
}
