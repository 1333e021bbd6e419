// Reference specification for C31 (parsed, never compiled to code or run).
#include "base.hpp"
#include <fstream>
#include <iostream>
#include "environment/global/gnss_satellites.hpp"
#include "environment/global/physical_constants.hpp"
#include "logger/log_utility.hpp"
#include "math_physics/gnss/antex_file_reader.hpp"
#include "math_physics/gnss/bias_sinex_file_reader.hpp"
#include "math_physics/gnss/gnss_satellite_number.hpp"
#include "math_physics/gnss/igs_product_name_handling.hpp"
#include "math_physics/gnss/sp3_file_reader.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/time_system/date_time_format.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
#define ANTEX_LINE_TYPE_POSITION (60)
// ---------------------------------------------------------------- environment/global/gnss_satellites.cpp
namespace s2e::environment::ref {
static const size_t kNumberOfInterpolation = 9;
//= s2e::environment::GnssSatellites::Initialize leaves=s2e::environment::GnssSatellites::UpdateInterpolationInformation,s2e::environment::GnssSatellites::GetCurrentSp3File,s2e::gnss::Sp3FileReader
void GnssSatellites_Initialize(GnssSatellites* self, const std::vector<gnss::Sp3FileReader>& sp3_files, const time_system::EpochTime start_time) {
  self->sp3_files_ = sp3_files;
  self->current_epoch_time_ = start_time;

  // Get the initialize SP3 file
  gnss::Sp3FileReader initial_sp3_file = self->sp3_files_[0];
  if (!self->GetCurrentSp3File(initial_sp3_file, start_time)) {
    std::cout << "[Error] GNSS satellites: Calculation time mismatch with SP3 files." << std::endl;
    return;
  }

  // Get general info
  self->number_of_calculated_gnss_satellites_ = initial_sp3_file.GetNumberOfSatellites();
  const size_t nearest_epoch_id = initial_sp3_file.SearchNearestEpochId(start_time);
  const size_t half_interpolation_number = kNumberOfInterpolation / 2;
  if (nearest_epoch_id >= half_interpolation_number) {
    self->reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
  }
  self->reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(self->reference_interpolation_id_));

  // Initialize orbit
  self->orbit_.assign(self->number_of_calculated_gnss_satellites_, orbit::InterpolationOrbit(kNumberOfInterpolation));

  // Initialize clock
  std::vector<double> temp;
  temp.assign(kNumberOfInterpolation, -1.0);
  self->clock_.assign(self->number_of_calculated_gnss_satellites_, math::Interpolation(temp, temp));

  // Initialize interpolation
  for (size_t i = 0; i < kNumberOfInterpolation; i++) {
    self->UpdateInterpolationInformation();
  }

  return;
}
//= s2e::environment::GnssSatellites::Update
void GnssSatellites_Update(GnssSatellites* self, const SimulationTime& simulation_time) {
  if (!self->IsCalcEnabled()) return;

  // Get time
  UTC current_utc = simulation_time.GetCurrentUtc();
  time_system::DateTime current_date_time((size_t)current_utc.year, (size_t)current_utc.month, (size_t)current_utc.day, (size_t)current_utc.hour,
                                          (size_t)current_utc.minute, current_utc.second);
  self->current_epoch_time_ = time_system::EpochTime(current_date_time);

  // Check interpolation update
  if (self->orbit_.empty()) return;
  double diff_s = self->current_epoch_time_.GetTimeWithFraction_s() - self->reference_time_.GetTimeWithFraction_s();
  while (diff_s > self->orbit_[0].GetTimeList()[4]) {
    if (!self->UpdateInterpolationInformation()) break;
  }

  return;
}
//= s2e::environment::GnssSatellites::GetPosition_ecef_m
math::Vector<3> GnssSatellites_GetPosition_ecef_m(GnssSatellites* self, const size_t gnss_satellite_id, const time_system::EpochTime time) {
  if (gnss_satellite_id >= self->number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);

  time_system::EpochTime target_time;

  if (time.GetTime_s() == 0) {
    target_time = self->current_epoch_time_;
  } else {
    target_time = time;
  }

  double diff_s = target_time.GetTimeWithFraction_s() - self->reference_time_.GetTimeWithFraction_s();
  if (diff_s < 0.0 || diff_s > 1e6) return math::Vector<3>(0.0);

  const double kOrbitalPeriodCorrection_s = 24 * 60 * 60 * 1.003;  // See http://acc.igs.org/orbits/orbit-interp_gpssoln03.pdf
  return self->orbit_[gnss_satellite_id].CalcPositionWithTrigonometric(diff_s, math::tau / kOrbitalPeriodCorrection_s);
}
//= s2e::environment::GnssSatellites::GetClock_s
double GnssSatellites_GetClock_s(GnssSatellites* self, const size_t gnss_satellite_id, const time_system::EpochTime time) {
  if (gnss_satellite_id >= self->number_of_calculated_gnss_satellites_) return 0.0;

  time_system::EpochTime target_time;

  if (time.GetTime_s() == 0) {
    target_time = self->current_epoch_time_;
  } else {
    target_time = time;
  }

  double diff_s = target_time.GetTimeWithFraction_s() - self->reference_time_.GetTimeWithFraction_s();
  if (diff_s < 0.0 || diff_s > 1e6) return 0.0;

  return self->clock_[gnss_satellite_id].CalcPolynomial(diff_s) * 1e-6;
}
//= s2e::environment::GnssSatellites::GetCurrentSp3File
bool GnssSatellites_GetCurrentSp3File(GnssSatellites* self, gnss::Sp3FileReader& current_sp3_file, const time_system::EpochTime current_time) {
  for (size_t i = 0; i < self->sp3_files_.size(); i++) {
    time_system::EpochTime sp3_start_time(self->sp3_files_[i].GetStartEpochDateTime());
    double diff_s = current_time.GetTimeWithFraction_s() - sp3_start_time.GetTimeWithFraction_s();
    if (diff_s < 0.0) {
      // Error
      return false;
    } else if (diff_s < 24 * 60 * 60) {
      current_sp3_file = self->sp3_files_[i];
      self->sp3_file_id_ = i;
      return true;
    }
  }
  return false;
}
//= s2e::environment::GnssSatellites::UpdateInterpolationInformation
bool GnssSatellites_UpdateInterpolationInformation(GnssSatellites* self) {
  if (self->sp3_file_id_ >= self->sp3_files_.size()) return false;
  gnss::Sp3FileReader sp3_file = self->sp3_files_[self->sp3_file_id_];

  for (size_t gnss_id = 0; gnss_id < self->number_of_calculated_gnss_satellites_; gnss_id++) {
    time_system::EpochTime sp3_time = time_system::EpochTime(sp3_file.GetEpochData(self->reference_interpolation_id_));
    double time_diff_s = sp3_time.GetTimeWithFraction_s() - self->reference_time_.GetTimeWithFraction_s();
    math::Vector<3> sp3_position_m = 1000.0 * sp3_file.GetSatellitePosition_km(self->reference_interpolation_id_, gnss_id);

    self->orbit_[gnss_id].PushAndPopData(time_diff_s, sp3_position_m);
    self->clock_[gnss_id].PushAndPopData(time_diff_s, sp3_file.GetSatelliteClockOffset(self->reference_interpolation_id_, gnss_id));
  }
  self->reference_interpolation_id_++;

  // File update
  if (self->reference_interpolation_id_ >= sp3_file.GetNumberOfEpoch()) {
    self->reference_interpolation_id_ = 0;
    self->sp3_file_id_++;
    if (self->sp3_file_id_ >= self->sp3_files_.size()) {
      std::cout << "[Error] GNSS satellites: SP3 file range over." << std::endl;
      return false;
    }
  }

  return true;
}
//= s2e::environment::InitGnssSatellites leaves=s2e::environment::GnssSatellites::Initialize,s2e::gnss::Sp3FileReader::Sp3FileReader,s2e::gnss::GetOrbitClockFinalFileName,s2e::gnss::IncrementYearDoy
GnssSatellites* _InitGnssSatellites(const std::string file_name, const EarthRotation& earth_rotation, const SimulationTime& simulation_time) {
  setting_file_reader::IniAccess ini_file(file_name);
  char section[] = "GNSS_SATELLITES";

  const bool is_calc_enable = ini_file.ReadEnable(section, INI_CALC_LABEL);
  const bool is_log_enable = ini_file.ReadEnable(section, INI_LOG_LABEL);

  GnssSatellites* gnss_satellites = new GnssSatellites(earth_rotation, is_calc_enable, is_log_enable);
  if (!gnss_satellites->IsCalcEnabled()) {
    return gnss_satellites;
  }

  const std::string directory_path = ini_file.ReadString(section, "directory_path");
  const std::string file_name_header = ini_file.ReadString(section, "file_name_header");
  const std::string orbit_data_period = ini_file.ReadString(section, "orbit_data_period");
  const std::string clock_file_name_footer = ini_file.ReadString(section, "clock_file_name_footer");
  bool use_sp3_for_clock = false;
  if (clock_file_name_footer == (orbit_data_period + "_ORB.SP3")) {
    use_sp3_for_clock = true;
  }

  // Duration
  const size_t start_date = (size_t)ini_file.ReadInt(section, "start_date");
  const size_t end_date = (size_t)ini_file.ReadInt(section, "end_date");
  if (start_date > end_date) {
    std::cout << "[ERROR] GNSS satellite initialize: start_date is larger than the end date." << std::endl;
  }

  // Read all product files
  std::vector<gnss::Sp3FileReader> sp3_file_readers;

  size_t read_file_date = start_date;
  while (read_file_date <= end_date) {
    std::string sp3_file_name = gnss::GetOrbitClockFinalFileName(file_name_header, read_file_date, orbit_data_period);
    std::string sp3_full_file_path = directory_path + sp3_file_name;

    // Read SP3
    sp3_file_readers.push_back(gnss::Sp3FileReader(sp3_full_file_path));

    // Clock file
    if (!use_sp3_for_clock) {
      std::string clk_file_name =
          gnss::GetOrbitClockFinalFileName(file_name_header, read_file_date, clock_file_name_footer.substr(0, 3), clock_file_name_footer.substr(4, 7));
      std::string clk_full_file_path = directory_path + clk_file_name;
      // TODO: Read CLK file
    }

    // Increment
    read_file_date = gnss::IncrementYearDoy(read_file_date);
  }

  //
  time_system::DateTime start_date_time((size_t)simulation_time.GetStartYear(), (size_t)simulation_time.GetStartMonth(),
                                        (size_t)simulation_time.GetStartDay(), (size_t)simulation_time.GetStartHour(),
                                        (size_t)simulation_time.GetStartMinute(), simulation_time.GetStartSecond());
  time_system::EpochTime start_epoch_time(start_date_time);
  gnss_satellites->Initialize(sp3_file_readers, start_epoch_time);

  return gnss_satellites;
}
}

// ---------------------------------------------------------------- environment/global/gnss_satellites.hpp
namespace s2e::environment::ref {
//= s2e::environment::GnssSatellites::GnssSatellites skip=earth_rotation_
void GnssSatellites_Ctor(GnssSatellites* self, const EarthRotation& earth_rotation, const bool is_calc_enabled, const bool is_log_enabled) {
  self->is_calc_enabled_ = is_calc_enabled;
  self->reference_interpolation_id_ = 0;
  self->current_epoch_time_ = time_system::EpochTime();
  self->reference_time_ = time_system::EpochTime();

    if (!self->is_calc_enabled_) {
      self->is_log_enabled_ = false;
    } else {
      self->is_log_enabled_ = is_log_enabled;
    }
  }
//= s2e::environment::GnssSatellites::IsCalcEnabled
bool GnssSatellites_IsCalcEnabled(GnssSatellites* self) { return self->is_calc_enabled_; }
//= s2e::environment::GnssSatellites::GetNumberOfCalculatedSatellite
size_t GnssSatellites_GetNumberOfCalculatedSatellite(GnssSatellites* self) { return self->number_of_calculated_gnss_satellites_; }
//= s2e::environment::GnssSatellites::GetPosition_eci_m
math::Vector<3> GnssSatellites_GetPosition_eci_m(GnssSatellites* self, const size_t gnss_satellite_id) {
    // TODO: Add target time for earth rotation calculation
    return self->earth_rotation_.GetDcmJ2000ToEcef().Transpose() * self->GetPosition_ecef_m(gnss_satellite_id);
  }
}

// ---------------------------------------------------------------- math_physics/gnss/antex_file_reader.cpp
namespace s2e::gnss::ref {
//= s2e::gnss::AntexGridDefinition::AntexGridDefinition
void AntexGridDefinition_Ctor(AntexGridDefinition* self, const double zenith_start_angle_deg, const double zenith_end_angle_deg, const double zenith_step_angle_deg, const double azimuth_step_angle_deg) {
  self->zenith_start_angle_deg_ = zenith_start_angle_deg;
  self->zenith_end_angle_deg_ = zenith_end_angle_deg;
  self->zenith_step_angle_deg_ = zenith_step_angle_deg;
  self->azimuth_step_angle_deg_ = azimuth_step_angle_deg;

  if (self->zenith_step_angle_deg_ <= 0.0) {
    self->number_of_zenith_grid_ = 0;
  } else {
    self->number_of_zenith_grid_ = size_t((self->zenith_end_angle_deg_ - self->zenith_start_angle_deg_) / self->zenith_step_angle_deg_) + 1;
  }

  if (self->azimuth_step_angle_deg_ <= 0.0) {
    self->number_of_azimuth_grid_ = 0;
  } else {
    self->number_of_azimuth_grid_ = size_t(360.0 / self->azimuth_step_angle_deg_) + 1;
  }
}
//= s2e::gnss::AntexGridDefinition::CalcClosestZenithIndex
size_t AntexGridDefinition_CalcClosestZenithIndex(AntexGridDefinition* self, const double zenith_angle_deg) {
  if (zenith_angle_deg <= self->zenith_start_angle_deg_) {
    return 0;
  } else if (zenith_angle_deg >= self->zenith_end_angle_deg_) {
    return self->number_of_zenith_grid_ - 1;
  } else {
    double diff_angle_deg = zenith_angle_deg - self->zenith_start_angle_deg_;
    size_t diff_index = size_t(diff_angle_deg / self->zenith_step_angle_deg_ + 0.5);
    return diff_index;
  }
}
//= s2e::gnss::AntexGridDefinition::CalcClosestAzimuthIndex
size_t AntexGridDefinition_CalcClosestAzimuthIndex(AntexGridDefinition* self, const double azimuth_angle_deg) {
  if (azimuth_angle_deg <= 0.0) {
    return 0;
  } else if (azimuth_angle_deg >= 360.0) {
    return self->number_of_azimuth_grid_ - 1;
  } else {
    size_t diff_index = size_t(azimuth_angle_deg / self->azimuth_step_angle_deg_ + 0.5);
    return diff_index;
  }
}
//= s2e::gnss::AntexFileReader::ReadFile leaves=s2e::gnss::AntexFileReader::ReadAntexData
bool AntexFileReader_ReadFile(AntexFileReader* self, const std::string file_name) {
  // File open
  std::ifstream antex_file(file_name);
  if (!antex_file.is_open()) {
    std::cout << "[Warning] Antex file not found: " << file_name << std::endl;
    return false;
  }

  while (antex_file.peek() != EOF) {
    std::string line;
    std::getline(antex_file, line);
    // Skip short line
    if (line.size() < ANTEX_LINE_TYPE_POSITION) {
      continue;
    }
    // Skip comments
    if (line.find("COMMENT") == ANTEX_LINE_TYPE_POSITION) {
      continue;
    }
    // Start antenna
    if (line.find("START OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
      self->ReadAntexData(antex_file);
    }
  }

  // Read epoch wise data
  antex_file.close();
  return true;
}
//= s2e::gnss::AntexFileReader::ReadAntexData leaves=s2e::gnss::AntexFileReader::ReadAntexSatelliteData,s2e::gnss::ConvertGnssSatelliteNumberToIndex
void AntexFileReader_ReadAntexData(AntexFileReader* self, std::ifstream& antex_file) {
  AntexSatelliteData antex_data;

  std::string line;
  while (1) {
    std::getline(antex_file, line);

    // Type and Serial No.
    if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
      std::string antenna_type = line.substr(0, 20);
      std::string serial_number = line.substr(20, 20);
      size_t satellite_index = ConvertGnssSatelliteNumberToIndex(serial_number);

      if (satellite_index == UINT32_MAX) {
        // receiver
        // TODO: implement
      } else {
        // GNSS satellite
        AntexSatelliteData antex_satellite_data;
        antex_satellite_data = self->ReadAntexSatelliteData(antex_file);
        antex_satellite_data.SetAntennaType(antenna_type);
        antex_satellite_data.SetSerialNumber(serial_number);
        self->antex_satellite_data_[satellite_index].push_back(antex_satellite_data);
      }
      break;
    }
  }
}
//= s2e::gnss::AntexFileReader::ReadAntexSatelliteData leaves=s2e::gnss::AntexFileReader::ReadPhaseCenterData,s2e::gnss::AntexFileReader::ReadDateTime
AntexSatelliteData AntexFileReader_ReadAntexSatelliteData(AntexFileReader* self, std::ifstream& antex_file) {
  AntexSatelliteData antex_data;
  AntexGridDefinition grid;
  std::vector<AntexPhaseCenterData> phase_center_data_list;

  std::string line;
  while (1) {
    std::getline(antex_file, line);

    // End antenna data
    if (line.find("END OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
      antex_data.SetPhaseCenterData(phase_center_data_list);
      break;
    }
    // Grid angle definition
    if (line.find("ZEN1 / ZEN2 / DZEN") == ANTEX_LINE_TYPE_POSITION) {
      double start, end, step;
      sscanf(line.substr(0, 60).c_str(), "%lf %lf %lf", &start, &end, &step);
      grid = AntexGridDefinition(start, end, step);
    }
    // Number of frequency
    if (line.find("# OF FREQUENCIES") == ANTEX_LINE_TYPE_POSITION) {
      antex_data.SetNumberOfFrequency(std::stoi(line.substr(0, 20)));
    }
    // Valid from
    if (line.find("VALID FROM") == ANTEX_LINE_TYPE_POSITION) {
      antex_data.SetValidStartTime(self->ReadDateTime(line.substr(0, 59)));
    }
    // Valid until
    if (line.find("VALID UNTIL") == ANTEX_LINE_TYPE_POSITION) {
      antex_data.SetValidEndTime(self->ReadDateTime(line.substr(0, 59)));
    }
    // Frequency
    if (line.find("START OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
      AntexPhaseCenterData phase_center_data = self->ReadPhaseCenterData(antex_file, grid);
      phase_center_data_list.push_back(phase_center_data);
    }
  }

  return antex_data;
}
//= s2e::gnss::AntexFileReader::ReadPhaseCenterData
AntexPhaseCenterData AntexFileReader_ReadPhaseCenterData(AntexFileReader* self, std::ifstream& antex_file, const AntexGridDefinition grid_information) {
  AntexPhaseCenterData phase_center_data;
  std::string line;
  while (1) {
    std::getline(antex_file, line);

    // End antenna data
    if (line.find("END OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
      phase_center_data.SetFrequencyName(line.substr(3, 3));
      phase_center_data.SetGridInformation(grid_information);
      break;
    }
    // Phase center offset
    if (line.find("NORTH / EAST / UP") == ANTEX_LINE_TYPE_POSITION) {
      math::Vector<3> offset{0.0};
      sscanf(line.c_str(), "%lf %lf %lf", &offset[0], &offset[1], &offset[2]);
      phase_center_data.SetPhaseCenterOffset_mm(offset);
    }
    // Phase center variation
    if (line.find("NOAZI") != std::string::npos) {
      std::vector<double> phase_center_variation;
      for (size_t i = 0; i < grid_information.GetNumberOfZenithGrid(); i++) {
        double parameter = std::stod(line.substr(8 + i * 8, 8));
        phase_center_variation.push_back(parameter);
      }
      std::vector<std::vector<double>> phase_center_variation_matrix;
      phase_center_variation_matrix.push_back(phase_center_variation);
      phase_center_data.SetPhaseCenterVariationMatrix_mm(phase_center_variation_matrix);
    }
    // TODO: implement DAZI
  }

  return phase_center_data;
}
//= s2e::gnss::AntexFileReader::ReadDateTime
time_system::DateTime AntexFileReader_ReadDateTime(AntexFileReader* self, std::string line) {
  size_t year, month, day, hour, minute;
  double second;
  sscanf(line.c_str(), "%zu %2zu %2zu %2zu %2zu %10lf", &year, &month, &day, &hour, &minute, &second);
  return time_system::DateTime(year, month, day, hour, minute, second);
}
}

// ---------------------------------------------------------------- math_physics/gnss/bias_sinex_file_reader.cpp
namespace s2e::gnss::ref {
//= s2e::gnss::BiasSinexFileReader::ReadFile
bool BiasSinexFileReader_ReadFile(BiasSinexFileReader* self, const std::string file_name) {
  // File open
  std::ifstream bias_sinex_file(file_name);
  if (!bias_sinex_file.is_open()) {
    std::cout << "[Warning] Bias SINEX file not found: " << file_name << std::endl;
    return false;
  }

  while (bias_sinex_file.peek() != EOF) {
    std::string line;
    std::getline(bias_sinex_file, line);
    // Skip comments
    if (line.find("*") == 0) {
      continue;
    }
    // Footer
    if (line.find("%=ENDBIA") == 0) {
      break;
    }
    // Header
    if (line.find("%=BIA") == 0) {
      // TODO: read header information
      continue;
    }
    // File/Reference
    if (line.find("+FILE/REFERENCE") == 0) {
      self->ReadFileReference(bias_sinex_file);
      continue;
    }
    // File/Comment
    if (line.find("+FILE/COMMENT") == 0) {
      self->ReadFileComment(bias_sinex_file);
      continue;
    }
    // Input/Acknowledgments
    if (line.find("+INPUT/ACKNOWLEDGMENTS") == 0) {
      self->ReadInputAcknowledgments(bias_sinex_file);
      continue;
    }
    // Bias/Description
    if (line.find("+BIAS/DESCRIPTION") == 0) {
      self->ReadBiasDescription(bias_sinex_file);
      continue;
    }
    // Bias/ReceiverInformation
    if (line.find("+BIAS/RECEIVER_INFORMATION") == 0) {
      self->ReadBiasReceiverInformation(bias_sinex_file);
      continue;
    }
    // Bias/Solution
    if (line.find("+BIAS/SOLUTION") == 0) {
      self->ReadBiasSolution(bias_sinex_file);
      continue;
    }
  }

  // Read epoch wise data
  bias_sinex_file.close();
  return true;
}
//= s2e::gnss::BiasSinexFileReader::ReadFileReference
void BiasSinexFileReader_ReadFileReference(BiasSinexFileReader* self, std::ifstream& bias_sinex_file) {
  std::string line;
  while (1) {
    std::getline(bias_sinex_file, line);
    // End of data
    if (line.find("-FILE/REFERENCE") == 0) {
      break;
    }
    // TODO: read information
  }
}
//= s2e::gnss::BiasSinexFileReader::ReadFileComment
void BiasSinexFileReader_ReadFileComment(BiasSinexFileReader* self, std::ifstream& bias_sinex_file) {
  std::string line;
  while (1) {
    std::getline(bias_sinex_file, line);
    // End of data
    if (line.find("-FILE/COMMENT") == 0) {
      break;
    }
    // TODO: read information
  }
}
//= s2e::gnss::BiasSinexFileReader::ReadInputAcknowledgments
void BiasSinexFileReader_ReadInputAcknowledgments(BiasSinexFileReader* self, std::ifstream& bias_sinex_file) {
  std::string line;
  while (1) {
    std::getline(bias_sinex_file, line);
    // End of data
    if (line.find("-INPUT/ACKNOWLEDGMENTS") == 0) {
      break;
    }
    // TODO: read information
  }
}
//= s2e::gnss::BiasSinexFileReader::ReadBiasDescription
void BiasSinexFileReader_ReadBiasDescription(BiasSinexFileReader* self, std::ifstream& bias_sinex_file) {
  std::string line;
  while (1) {
    std::getline(bias_sinex_file, line);
    // End of data
    if (line.find("-BIAS/DESCRIPTION") == 0) {
      break;
    }
    // TODO: read information
  }
}
//= s2e::gnss::BiasSinexFileReader::ReadBiasReceiverInformation
void BiasSinexFileReader_ReadBiasReceiverInformation(BiasSinexFileReader* self, std::ifstream& bias_sinex_file) {
  std::string line;
  while (1) {
    std::getline(bias_sinex_file, line);
    // End of data
    if (line.find("-BIAS/RECEIVER_INFORMATION") == 0) {
      break;
    }
    // TODO: read information
  }
}
//= s2e::gnss::BiasSinexFileReader::ReadBiasSolution
void BiasSinexFileReader_ReadBiasSolution(BiasSinexFileReader* self, std::ifstream& bias_sinex_file) {
  std::string line;

  while (1) {
    std::getline(bias_sinex_file, line);
    // End of data
    if (line.find("-BIAS/SOLUTION") == 0) {
      break;
    }
    // Skip comments
    if (line.find("*") == 0) {
      continue;
    }
    // data read
    BiasSolutionData solution_data;
    size_t read_point = 1;
    size_t read_size = 4;

    solution_data.SetIdentifier(line.substr(read_point, read_size));
    read_point += read_size + 1;

    read_size = 4;
    solution_data.SetSatelliteSvnCode(line.substr(read_point, read_size));
    read_point += read_size + 1;

    read_size = 3;
    solution_data.SetSatelliteNumber(line.substr(read_point, read_size));
    read_point += read_size + 1;

    read_size = 9;
    solution_data.SetStationName(line.substr(read_point, read_size));
    read_point += read_size + 1;

    read_size = 4;
    std::string obs1 = line.substr(read_point, read_size);
    read_point += read_size + 1;
    read_size = 4;
    std::string obs2 = line.substr(read_point, read_size);
    read_point += read_size + 1;
    solution_data.SetTargetSignal(obs1, obs2);

    read_size = 14;
    std::string start_time = line.substr(read_point, read_size);
    read_point += read_size + 1;

    read_size = 14;
    std::string end_time = line.substr(read_point, read_size);
    read_point += read_size + 1;

    read_size = 4;
    solution_data.SetUnit(line.substr(read_point, read_size));
    read_point += read_size + 1;

    read_size = 21;
    solution_data.SetBias(std::stod(line.substr(read_point, read_size)));
    read_point += read_size + 1;

    read_size = 12;
    solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
    read_point += read_size + 1;

    if (read_point + 21 <= line.size()) {
      read_size = 21;
      solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
      read_point += read_size + 1;
    }
    if (read_point + 12 <= line.size()) {
      read_size = 12;
      solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
      read_point += read_size + 1;
    }

    self->solution_data_.push_back(solution_data);
  }
}
//= s2e::gnss::BiasSolutionData::SetIdentifier
void BiasSolutionData_SetIdentifier(BiasSolutionData* self, const std::string identifier) {
  if (identifier == "DSB ") {
    self->identifier_ = BiasIdentifier::kDsb;
  } else if (identifier == "ISB ") {
    self->identifier_ = BiasIdentifier::kIsb;
  } else if (identifier == "OSB ") {
    self->identifier_ = BiasIdentifier::kOsb;
  } else {
    self->identifier_ = BiasIdentifier::kError;
  }
}
//= s2e::gnss::BiasSolutionData::SetUnit
void BiasSolutionData_SetUnit(BiasSolutionData* self, const std::string unit) {
  if (unit == "ns  ") {
    self->unit_ = BiasUnit::kNs;
  } else if (unit == "cyc ") {
    self->unit_ = BiasUnit::kCycle;
  } else {
    self->unit_ = BiasUnit::kError;
  }
}
//= s2e::gnss::BiasSolutionData::SetTargetSignal
void BiasSolutionData_SetTargetSignal(BiasSolutionData* self, const std::string signal1, const std::string signal2) {
  // TODO: Add other target combination
  if (signal1 == "C1W " && signal2 == "C2W ") {
    self->target_signal_ = BiasTargetSignal::kP1P2;
  } else if (signal1 == "C1P " && signal2 == "C2P ") {
    self->target_signal_ = BiasTargetSignal::kP1P2;
  } else if (signal1 == "C1P " && signal2 == "C1C ") {
    self->target_signal_ = BiasTargetSignal::kP1C1;
  } else if (signal1 == "C2P " && signal2 == "C2C ") {
    self->target_signal_ = BiasTargetSignal::kP2C2;
  } else {
    self->target_signal_ = BiasTargetSignal::kError;
  }
}
}

// ---------------------------------------------------------------- math_physics/gnss/gnss_satellite_number.cpp
namespace s2e::gnss::ref {
//= s2e::gnss::ConvertGnssSatelliteNumberToIndex
size_t _ConvertGnssSatelliteNumberToIndex(const std::string satellite_number) {
  switch (satellite_number.front()) {
    case 'G':
      return stoi(satellite_number.substr(1)) + kGpsIndexBegin - 1;
    case 'R':
      return stoi(satellite_number.substr(1)) + kGlonassIndexBegin - 1;
    case 'E':
      return stoi(satellite_number.substr(1)) + kGalileoIndexBegin - 1;
    case 'C':
      return stoi(satellite_number.substr(1)) + kBeidouIndexBegin - 1;
    case 'J':
      return stoi(satellite_number.substr(1)) + kQzssIndexBegin - 1;
    case 'I':
      return stoi(satellite_number.substr(1)) + kNavicIndexBegin - 1;
    default:
      return UINT32_MAX;
      break;
  }
}
//= s2e::gnss::ConvertIndexToGnssSatelliteNumber
std::string _ConvertIndexToGnssSatelliteNumber(const size_t index) {
  std::string output;
  size_t prn_number = 0;

  if (index < kGlonassIndexBegin) {
    output = 'G';
    prn_number = index - kGpsIndexBegin + 1;
  } else if (index < kGalileoIndexBegin) {
    output = 'R';
    prn_number = index - kGlonassIndexBegin + 1;
  } else if (index < kBeidouIndexBegin) {
    output = 'E';
    prn_number = index - kGalileoIndexBegin + 1;
  } else if (index < kQzssIndexBegin) {
    output = 'C';
    prn_number = index - kBeidouIndexBegin + 1;
  } else if (index < kNavicIndexBegin) {
    output = 'J';
    prn_number = index - kQzssIndexBegin + 1;
  } else if (index < kTotalNumberOfGnssSatellite) {
    output = 'I';
    prn_number = index - kNavicIndexBegin + 1;
  } else {
    return "err";
  }

  if (prn_number < 10) {
    output += '0';
  }
  output += std::to_string(prn_number);

  return output;
}
}

// ---------------------------------------------------------------- math_physics/gnss/sp3_file_reader.cpp
namespace s2e::gnss::ref {
//= s2e::gnss::Sp3FileReader::Sp3FileReader
void Sp3FileReader_Ctor(gnss::Sp3FileReader* self, const std::string file_name) { self->ReadFile(file_name); }
//= s2e::gnss::Sp3FileReader::GetEpochData
time_system::DateTime Sp3FileReader_GetEpochData(gnss::Sp3FileReader* self, const size_t epoch_id) {
  if (epoch_id >= self->epoch_.size()) {
    time_system::DateTime zero;
    return zero;
  }
  return self->epoch_[epoch_id];
}
//= s2e::gnss::Sp3FileReader::GetPositionClock
Sp3PositionClock Sp3FileReader_GetPositionClock(gnss::Sp3FileReader* self, const size_t epoch_id, const size_t satellite_id) {
  Sp3PositionClock zero;
  if (epoch_id >= self->epoch_.size()) {
    return zero;
  }
  if (satellite_id >= self->position_clock_.size()) {
    return zero;
  }

  return self->position_clock_[satellite_id][epoch_id];
}
//= s2e::gnss::Sp3FileReader::GetSatelliteClockOffset
double Sp3FileReader_GetSatelliteClockOffset(gnss::Sp3FileReader* self, const size_t epoch_id, const size_t satellite_id) {
  Sp3PositionClock position_clock = self->GetPositionClock(epoch_id, satellite_id);
  return position_clock.clock_us_;
}
//= s2e::gnss::Sp3FileReader::GetSatellitePosition_km
math::Vector<3> Sp3FileReader_GetSatellitePosition_km(gnss::Sp3FileReader* self, const size_t epoch_id, const size_t satellite_id) {
  Sp3PositionClock position_clock = self->GetPositionClock(epoch_id, satellite_id);
  return position_clock.position_km_;
}
//= s2e::gnss::Sp3FileReader::ReadFile
bool Sp3FileReader_ReadFile(gnss::Sp3FileReader* self, const std::string file_name) {
  // File open
  std::ifstream sp3_file(file_name);
  if (!sp3_file.is_open()) {
    std::cout << "[Warning] SP3 file not found: " << file_name << std::endl;
    return false;
  }

  // Header
  size_t line_number = self->ReadHeader(sp3_file);
  if (line_number == 0) return false;

  // Read epoch wise data
  for (size_t epoch_id = 0; epoch_id < self->header_.number_of_epoch_; epoch_id++) {
    std::string line;
    // Epoch information
    std::getline(sp3_file, line);
    if (line.find("* ") != 0) {
      std::cout << "[Warning] SP3 file Epoch line first character error: " << line << std::endl;
      return false;
    }
    size_t year, month, day, hour, minute;
    double second;
    sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
    self->epoch_.push_back(time_system::DateTime(year, month, day, hour, minute, second));

    // Orbit and Clock information
    for (size_t satellite_id = 0; satellite_id < self->header_.number_of_satellites_; satellite_id++) {
      std::getline(sp3_file, line);
      // Position and Clock
      if (line.find("P") != 0) {
        std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
        return false;
      }
      Sp3PositionClock position_clock = self->DecodePositionClockData(line);
      self->position_clock_[satellite_id].push_back(position_clock);

      // [Optional] Position and Clock Correlation
      std::streampos previous_position = sp3_file.tellg();
      std::getline(sp3_file, line);
      if (line.find("EP") != 0) {
        sp3_file.seekg(previous_position);
      } else {
        Sp3PositionClockCorrelation position_clock_correlation = self->DecodePositionClockCorrelation(line);
        self->position_clock_correlation_[satellite_id].push_back(position_clock_correlation);
      }

      // Velocity and Clock rate
      if (self->header_.mode_ == Sp3Mode::kVelocity) {
        std::getline(sp3_file, line);
        // Position and Clock
        if (line.find("V") != 0) {
          std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
          return false;
        }
        Sp3VelocityClockRate velocity_clock_rate = self->DecodeVelocityClockRateData(line);
        self->velocity_clock_rate_[satellite_id].push_back(velocity_clock_rate);

        // [Optional] Velocity and Clock rate Correlation
        previous_position = sp3_file.tellg();
        std::getline(sp3_file, line);
        if (line.find("EV") != 0) {
          sp3_file.seekg(previous_position);
        } else {
          Sp3VelocityClockRateCorrelation velocity_clock_rate_correlation = self->DecodeVelocityClockRateCorrelation(line);
          self->velocity_clock_rate_correlation_[satellite_id].push_back(velocity_clock_rate_correlation);
        }
      }
    }
  }

  sp3_file.close();
  return true;
}
//= s2e::gnss::Sp3FileReader::SearchNearestEpochId
size_t Sp3FileReader_SearchNearestEpochId(gnss::Sp3FileReader* self, const time_system::EpochTime time) {
  size_t nearest_epoch_id = 0;

  // Get header info
  const size_t num_epoch = self->header_.number_of_epoch_;
  const double interval_s = self->header_.epoch_interval_s_;

  // Check range
  time_system::EpochTime start_epoch(self->epoch_[0]);
  if (start_epoch > time) {
    nearest_epoch_id = 0;
  } else if ((time_system::EpochTime)(self->epoch_[num_epoch - 1]) < time) {
    nearest_epoch_id = num_epoch - 1;
  } else {  // Calc nearest point
    double diff_s = time.GetTimeWithFraction_s() - start_epoch.GetTimeWithFraction_s();
    nearest_epoch_id = (size_t)(diff_s / interval_s + 0.5);
  }

  return nearest_epoch_id;
}
//= s2e::gnss::Sp3FileReader::ReadHeader
size_t Sp3FileReader_ReadHeader(gnss::Sp3FileReader* self, std::ifstream& sp3_file) {
  size_t line_number = 0;
  std::string line;

  // 1st line
  line_number++;
  std::getline(sp3_file, line);
  // Check SP3 version
  if (line.find("#d") != 0) {
    std::cout << "[Warning] SP3 file version is not supported: " << line << std::endl;
    std::cout << "We recommend to use SP3-d. " << std::endl;
  }
  // Read contents
  if (line[2] == 'P') {
    self->header_.mode_ = Sp3Mode::kPosition;
  } else if (line[2] == 'V') {
    self->header_.mode_ = Sp3Mode::kVelocity;
  } else {
    self->header_.mode_ = Sp3Mode::kOther;
    std::cout << "[Warning] SP3 file mode is undefined: " << line << std::endl;
  }
  size_t year, month, day, hour, minute;
  double second;
  sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
  self->header_.start_epoch_ = time_system::DateTime(year, month, day, hour, minute, second);
  self->header_.number_of_epoch_ = std::stoi(line.substr(32, 7));
  self->header_.used_data_ = line.substr(40, 5);
  self->header_.coordinate_system_ = line.substr(46, 5);
  std::string orbit_type = line.substr(52, 3);
  if (orbit_type == "FIT") {
    self->header_.orbit_type_ = Sp3OrbitType::kFitted;
  } else if (orbit_type == "EXT") {
    self->header_.orbit_type_ = Sp3OrbitType::kExtrapolated;
  } else if (orbit_type == "BCT") {
    self->header_.orbit_type_ = Sp3OrbitType::kBroadcast;
  } else if (orbit_type == "HLM") {
    self->header_.orbit_type_ = Sp3OrbitType::kHelmert;
  } else {
    self->header_.orbit_type_ = Sp3OrbitType::kOther;
    std::cout << "[Warning] SP3 file orbit type is undefined: " << line << std::endl;
  }
  self->header_.agency_name_ = line.substr(56, 4);

  // 2nd line
  line_number++;
  std::getline(sp3_file, line);
  // Check first character
  if (line.find("##") != 0) {
    std::cout << "[Warning] SP3 file 2nd line first character error: " << line << std::endl;
    return 0;
  }
  // Read contents
  self->header_.start_gps_time_ = time_system::GpsTime(std::stoi(line.substr(3, 4)), std::stod(line.substr(8, 15)));
  self->header_.epoch_interval_s_ = std::stod(line.substr(24, 14));
  self->header_.start_time_mjday_ = std::stoi(line.substr(39, 5));
  self->header_.start_time_mjday_fractional_day_ = std::stod(line.substr(45, 15));

  // Satellite ID lines
  line_number++;
  std::getline(sp3_file, line);
  // Check first character
  if (line.find("+ ") != 0) {
    std::cout << "[Warning] SP3 file satellite ID line first character error: " << line << std::endl;
    return 0;
  }
  // Read contents
  self->header_.number_of_satellites_ = std::stoi(line.substr(3, 3));
  const size_t kMaxSatelliteNumberOneLine = 17;
  while (line.find("+ ") == 0) {
    for (size_t i = 0; i < kMaxSatelliteNumberOneLine; i++) {
      if (self->header_.satellite_ids_.size() >= self->header_.number_of_satellites_) {
        break;
      }
      self->header_.satellite_ids_.push_back(line.substr(9 + i * 3, 3));
    }
    line_number++;
    std::getline(sp3_file, line);
  }
  if (self->header_.satellite_ids_.size() != self->header_.number_of_satellites_) {
    std::cout << "[Warning] SP3 file number of satellite and size of satellite ID are incompatible." << std::endl;
    return 0;
  }

  // Accuracy lines
  // Check first character
  if (line.find("++") != 0) {
    std::cout << "[Warning] SP3 file accuracy line first character error: " << line << std::endl;
    return 0;
  }
  while (line.find("++") == 0) {
    for (size_t i = 0; i < kMaxSatelliteNumberOneLine; i++) {
      if (self->header_.satellite_accuracy_.size() >= self->header_.number_of_satellites_) {
        break;
      }
      self->header_.satellite_accuracy_.push_back((uint8_t)stoi(line.substr(9 + i * 3, 3)));
    }
    line_number++;
    std::getline(sp3_file, line);
  }
  if (self->header_.satellite_accuracy_.size() != self->header_.number_of_satellites_) {
    std::cout << "[Warning] SP3 file number of satellite and size of accuracy are incompatible." << std::endl;
    return 0;
  }

  // Additional character lines
  if (line.find("%c") != 0) {
    std::cout << "[Warning] SP3 file 1st additional character line first character error: " << line << std::endl;
    return 0;
  }
  self->header_.file_type_ = line.substr(3, 2);
  self->header_.time_system_ = line.substr(9, 3);
  line_number++;
  std::getline(sp3_file, line);
  if (line.find("%c") != 0) {
    std::cout << "[Warning] SP3 file 2nd additional character line first character error: " << line << std::endl;
    return 0;
  }

  // Additional float lines
  line_number++;
  std::getline(sp3_file, line);
  if (line.find("%f") != 0) {
    std::cout << "[Warning] SP3 file 1st additional float line first character error: " << line << std::endl;
    return 0;
  }
  self->header_.base_number_position_ = std::stod(line.substr(3, 10));
  self->header_.base_number_clock_ = std::stod(line.substr(14, 12));
  line_number++;
  std::getline(sp3_file, line);
  if (line.find("%f") != 0) {
    std::cout << "[Warning] SP3 file 2nd additional float line first character error: " << line << std::endl;
    return 0;
  }

  // Additional integer lines
  line_number++;
  std::getline(sp3_file, line);
  if (line.find("%i") != 0) {
    std::cout << "[Warning] SP3 file 1st additional integer line first character error: " << line << std::endl;
    return 0;
  }
  line_number++;
  std::getline(sp3_file, line);
  if (line.find("%i") != 0) {
    std::cout << "[Warning] SP3 file 2nd additional integer line first character error: " << line << std::endl;
    return 0;
  }

  // Comment lines
  std::streampos pos;
  do {
    line_number++;
    pos = sp3_file.tellg();
    std::getline(sp3_file, line);
  } while (line.find("/*") == 0);

  sp3_file.seekg(pos);
  return line_number - 1;
}
//= s2e::gnss::Sp3FileReader::DecodePositionClockData
Sp3PositionClock Sp3FileReader_DecodePositionClockData(gnss::Sp3FileReader* self, std::string line) {
  Sp3PositionClock position_clock;

  // Satellite ID
  position_clock.satellite_id_ = line.substr(1, 3);

  // Position and clock
  math::Vector<3> position_km;
  for (size_t axis = 0; axis < 3; axis++) {
    position_km[axis] = stod(line.substr(4 + axis * 14, 14));
  }
  position_clock.position_km_ = position_km;
  position_clock.clock_us_ = stod(line.substr(46, 14));

  // Standard deviations
  if (line.size() > 61) {
    math::Vector<3> position_standard_deviation;
    for (size_t axis = 0; axis < 3; axis++) {
      try {
        position_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
      } catch (const std::invalid_argument&) {
        position_standard_deviation[axis] = 0.0;
      }
    }
    position_clock.position_standard_deviation_ = position_standard_deviation;
    try {
      position_clock.clock_standard_deviation_ = stod(line.substr(70, 3));
    } catch (const std::invalid_argument&) {
      position_clock.clock_standard_deviation_ = 0.0;
    }
  }

  // Flags
  if (line.size() > 73) {
    if (line.substr(74, 1) == "E") {
      position_clock.clock_event_flag_ = true;
    }
    if (line.substr(75, 1) == "P") {
      position_clock.clock_prediction_flag_ = true;
    }
    if (line.substr(78, 1) == "M") {
      position_clock.maneuver_flag_ = true;
    }
    if (line.substr(79, 1) == "P") {
      position_clock.orbit_prediction_flag_ = true;
    }
  }

  // Register information
  return position_clock;
}
//= s2e::gnss::Sp3FileReader::DecodePositionClockCorrelation
Sp3PositionClockCorrelation Sp3FileReader_DecodePositionClockCorrelation(gnss::Sp3FileReader* self, std::string line) {
  Sp3PositionClockCorrelation correlation;

  // Satellite ID
  correlation.position_x_standard_deviation_mm_ = stoi(line.substr(4, 4));
  correlation.position_y_standard_deviation_mm_ = stoi(line.substr(9, 4));
  correlation.position_z_standard_deviation_mm_ = stoi(line.substr(14, 4));
  correlation.clock_standard_deviation_ps_ = stoi(line.substr(19, 7));
  correlation.x_y_correlation_ = stoi(line.substr(27, 8));
  correlation.x_z_correlation_ = stoi(line.substr(36, 8));
  correlation.x_clock_correlation_ = stoi(line.substr(45, 8));
  correlation.y_z_correlation_ = stoi(line.substr(54, 8));
  correlation.y_clock_correlation_ = stoi(line.substr(63, 8));
  correlation.z_clock_correlation_ = stoi(line.substr(72, 8));

  return correlation;
}
//= s2e::gnss::Sp3FileReader::DecodeVelocityClockRateData
Sp3VelocityClockRate Sp3FileReader_DecodeVelocityClockRateData(gnss::Sp3FileReader* self, std::string line) {
  Sp3VelocityClockRate velocity_clock_rate;

  // Satellite ID
  velocity_clock_rate.satellite_id_ = line.substr(1, 3);

  // Velocity and clock rate
  math::Vector<3> velocity_dm_s;
  for (size_t axis = 0; axis < 3; axis++) {
    velocity_dm_s[axis] = stod(line.substr(4 + axis * 14, 14));
  }
  velocity_clock_rate.velocity_dm_s_ = velocity_dm_s;
  velocity_clock_rate.clock_rate_ = stod(line.substr(46, 14));

  // Standard deviations
  if (line.size() > 61) {
    math::Vector<3> velocity_standard_deviation;
    for (size_t axis = 0; axis < 3; axis++) {
      try {
        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
      } catch (const std::invalid_argument&) {
        velocity_standard_deviation[axis] = 0.0;
      }
    }
    velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
    try {
      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
    } catch (const std::invalid_argument&) {
      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
    }
  }

  return velocity_clock_rate;
}
//= s2e::gnss::Sp3FileReader::DecodeVelocityClockRateCorrelation
Sp3VelocityClockRateCorrelation Sp3FileReader_DecodeVelocityClockRateCorrelation(gnss::Sp3FileReader* self, std::string line) {
  Sp3VelocityClockRateCorrelation correlation;

  // Satellite ID
  correlation.velocity_x_standard_deviation_ = stoi(line.substr(4, 4));
  correlation.velocity_y_standard_deviation_ = stoi(line.substr(9, 4));
  correlation.velocity_z_standard_deviation_ = stoi(line.substr(14, 4));
  correlation.clock_rate_standard_deviation_ = stoi(line.substr(19, 7));
  correlation.x_y_correlation_ = stoi(line.substr(27, 8));
  correlation.x_z_correlation_ = stoi(line.substr(36, 8));
  correlation.x_clock_correlation_ = stoi(line.substr(45, 8));
  correlation.y_z_correlation_ = stoi(line.substr(54, 8));
  correlation.y_clock_correlation_ = stoi(line.substr(63, 8));
  correlation.z_clock_correlation_ = stoi(line.substr(72, 8));

  return correlation;
}
}

// ---------------------------------------------------------------- math_physics/gnss/antex_file_reader.hpp
namespace s2e::gnss::ref {
//= s2e::gnss::AntexGridDefinition::GetZenithStartAngle_deg
double AntexGridDefinition_GetZenithStartAngle_deg(AntexGridDefinition* self) { return self->zenith_start_angle_deg_; }
//= s2e::gnss::AntexGridDefinition::GetZenithEndAngle_deg
double AntexGridDefinition_GetZenithEndAngle_deg(AntexGridDefinition* self) { return self->zenith_end_angle_deg_; }
//= s2e::gnss::AntexGridDefinition::GetZenithStepAngle_deg
double AntexGridDefinition_GetZenithStepAngle_deg(AntexGridDefinition* self) { return self->zenith_step_angle_deg_; }
//= s2e::gnss::AntexGridDefinition::GetNumberOfZenithGrid
size_t AntexGridDefinition_GetNumberOfZenithGrid(AntexGridDefinition* self) { return self->number_of_zenith_grid_; }
//= s2e::gnss::AntexGridDefinition::GetAzimuthStepAngle_deg
double AntexGridDefinition_GetAzimuthStepAngle_deg(AntexGridDefinition* self) { return self->azimuth_step_angle_deg_; }
//= s2e::gnss::AntexGridDefinition::GetNumberOfAzimuthGrid
size_t AntexGridDefinition_GetNumberOfAzimuthGrid(AntexGridDefinition* self) { return self->number_of_azimuth_grid_; }
//= s2e::gnss::AntexPhaseCenterData::AntexPhaseCenterData
void AntexPhaseCenterData_Ctor(AntexPhaseCenterData* self) {
  self->frequency_name_ = "";
  self->phase_center_offset_mm_ = math::Vector<3>{0.0};
  self->grid_information_ = AntexGridDefinition();
}
//= s2e::gnss::AntexPhaseCenterData::SetFrequencyName
void AntexPhaseCenterData_SetFrequencyName(AntexPhaseCenterData* self, const std::string frequency_name) { self->frequency_name_ = frequency_name; }
//= s2e::gnss::AntexPhaseCenterData::SetPhaseCenterOffset_mm
void AntexPhaseCenterData_SetPhaseCenterOffset_mm(AntexPhaseCenterData* self, const math::Vector<3> phase_center_offset_mm) { self->phase_center_offset_mm_ = phase_center_offset_mm; }
//= s2e::gnss::AntexPhaseCenterData::SetGridInformation
void AntexPhaseCenterData_SetGridInformation(AntexPhaseCenterData* self, const AntexGridDefinition grid_information) { self->grid_information_ = grid_information; }
//= s2e::gnss::AntexPhaseCenterData::SetPhaseCenterVariationMatrix_mm
void AntexPhaseCenterData_SetPhaseCenterVariationMatrix_mm(AntexPhaseCenterData* self, const std::vector<std::vector<double>> phase_center_variation_matrix_mm) {
    self->phase_center_variation_matrix_mm_ = phase_center_variation_matrix_mm;
  }
//= s2e::gnss::AntexPhaseCenterData::GetFrequencyName
std::string AntexPhaseCenterData_GetFrequencyName(AntexPhaseCenterData* self) { return self->frequency_name_; }
//= s2e::gnss::AntexPhaseCenterData::GetPhaseCenterOffset_mm
math::Vector<3> AntexPhaseCenterData_GetPhaseCenterOffset_mm(AntexPhaseCenterData* self) { return self->phase_center_offset_mm_; }
//= s2e::gnss::AntexPhaseCenterData::GetGridInformation
AntexGridDefinition AntexPhaseCenterData_GetGridInformation(AntexPhaseCenterData* self) { return self->grid_information_; }
//= s2e::gnss::AntexPhaseCenterData::GetPhaseCenterVariationMatrix_mm
std::vector<std::vector<double>> AntexPhaseCenterData_GetPhaseCenterVariationMatrix_mm(AntexPhaseCenterData* self) { return self->phase_center_variation_matrix_mm_; }
//= s2e::gnss::AntexSatelliteData::AntexSatelliteData
void AntexSatelliteData_Ctor(AntexSatelliteData* self) {
  self->number_of_frequency_ = 1;
  self->valid_start_time_ = time_system::DateTime("0000/01/01 00:00:00.0");
  self->valid_end_time_ = time_system::DateTime("0000/01/01 00:00:00.0");
}
//= s2e::gnss::AntexSatelliteData::SetAntennaType
void AntexSatelliteData_SetAntennaType(AntexSatelliteData* self, const std::string antenna_type) { self->antenna_type_ = antenna_type; }
//= s2e::gnss::AntexSatelliteData::SetSerialNumber
void AntexSatelliteData_SetSerialNumber(AntexSatelliteData* self, const std::string serial_number) { self->serial_number_ = serial_number; }
//= s2e::gnss::AntexSatelliteData::SetValidStartTime
void AntexSatelliteData_SetValidStartTime(AntexSatelliteData* self, const time_system::DateTime valid_start_time) { self->valid_start_time_ = valid_start_time; }
//= s2e::gnss::AntexSatelliteData::SetValidEndTime
void AntexSatelliteData_SetValidEndTime(AntexSatelliteData* self, const time_system::DateTime valid_end_time) { self->valid_end_time_ = valid_end_time; }
//= s2e::gnss::AntexSatelliteData::SetNumberOfFrequency
void AntexSatelliteData_SetNumberOfFrequency(AntexSatelliteData* self, const size_t number_of_frequency) { self->number_of_frequency_ = number_of_frequency; }
//= s2e::gnss::AntexSatelliteData::SetPhaseCenterData
void AntexSatelliteData_SetPhaseCenterData(AntexSatelliteData* self, const std::vector<AntexPhaseCenterData> phase_center_data) { self->phase_center_data_ = phase_center_data; }
//= s2e::gnss::AntexSatelliteData::GetAntennaType
std::string AntexSatelliteData_GetAntennaType(AntexSatelliteData* self) { return self->antenna_type_; }
//= s2e::gnss::AntexSatelliteData::GetSerialNumber
std::string AntexSatelliteData_GetSerialNumber(AntexSatelliteData* self) { return self->serial_number_; }
//= s2e::gnss::AntexSatelliteData::GetValidStartTime
time_system::DateTime AntexSatelliteData_GetValidStartTime(AntexSatelliteData* self) { return self->valid_start_time_; }
//= s2e::gnss::AntexSatelliteData::GetValidEndTime
time_system::DateTime AntexSatelliteData_GetValidEndTime(AntexSatelliteData* self) { return self->valid_end_time_; }
//= s2e::gnss::AntexSatelliteData::GetNumberOfFrequency
size_t AntexSatelliteData_GetNumberOfFrequency(AntexSatelliteData* self) { return self->number_of_frequency_; }
//= s2e::gnss::AntexSatelliteData::GetPhaseCenterData
AntexPhaseCenterData AntexSatelliteData_GetPhaseCenterData(AntexSatelliteData* self, const size_t frequency_index) { return self->phase_center_data_[frequency_index]; }
//= s2e::gnss::AntexFileReader::AntexFileReader leaves=s2e::gnss::AntexFileReader::ReadFile
void AntexFileReader_Ctor(AntexFileReader* self, std::string file_name) { self->is_file_read_succeeded_ = self->ReadFile(file_name); }
//= s2e::gnss::AntexFileReader::GetFileReadSuccessFlag
bool AntexFileReader_GetFileReadSuccessFlag(AntexFileReader* self) { return self->is_file_read_succeeded_; }
//= s2e::gnss::AntexFileReader::GetNumberOfSatelliteData
size_t AntexFileReader_GetNumberOfSatelliteData(AntexFileReader* self) { return self->antex_satellite_data_.size(); }
//= s2e::gnss::AntexFileReader::GetAntexSatelliteData
std::vector<AntexSatelliteData> AntexFileReader_GetAntexSatelliteData(AntexFileReader* self, const size_t satellite_index) {
    return self->antex_satellite_data_.at(satellite_index);
  }
}

// ---------------------------------------------------------------- math_physics/gnss/bias_sinex_file_reader.hpp
namespace s2e::gnss::ref {
//= s2e::gnss::BiasSolutionData::BiasSolutionData
void BiasSolutionData_Ctor(BiasSolutionData* self) {
  self->identifier_ = BiasIdentifier::kError;
  self->satellite_svn_code_ = "";
  self->satellite_number_ = "";
  self->station_name_ = "";
  self->target_signal_ = BiasTargetSignal::kError;
  self->unit_ = BiasUnit::kError;
  self->bias_ = 0.0;
  self->bias_standard_deviation_ = 0.0;
  self->slope_ns_s_ = 0.0;
  self->slope_standard_deviation_ns_s_ = 0.0;
}
//= s2e::gnss::BiasSolutionData::SetSatelliteSvnCode
void BiasSolutionData_SetSatelliteSvnCode(BiasSolutionData* self, const std::string satellite_svn_code) { self->satellite_svn_code_ = satellite_svn_code; }
//= s2e::gnss::BiasSolutionData::SetSatelliteNumber
void BiasSolutionData_SetSatelliteNumber(BiasSolutionData* self, const std::string satellite_number) {
    self->satellite_number_ = satellite_number;
    // satellite_index_ = ConvertSatelliteNumberToIndex(satellite_number);
  }
//= s2e::gnss::BiasSolutionData::SetStationName
void BiasSolutionData_SetStationName(BiasSolutionData* self, const std::string station_name) { self->station_name_ = station_name; }
//= s2e::gnss::BiasSolutionData::SetBias
void BiasSolutionData_SetBias(BiasSolutionData* self, const double bias) { self->bias_ = bias; }
//= s2e::gnss::BiasSolutionData::SetBiasStandardDeviation
void BiasSolutionData_SetBiasStandardDeviation(BiasSolutionData* self, const double bias_standard_deviation) { self->bias_standard_deviation_ = bias_standard_deviation; }
//= s2e::gnss::BiasSolutionData::SetSlope_ns_s
void BiasSolutionData_SetSlope_ns_s(BiasSolutionData* self, const double slope_ns_s) { self->slope_ns_s_ = slope_ns_s; }
//= s2e::gnss::BiasSolutionData::SetSlopeStandardDeviation_ns_s
void BiasSolutionData_SetSlopeStandardDeviation_ns_s(BiasSolutionData* self, const double slope_standard_deviation_ns_s) {
    self->slope_standard_deviation_ns_s_ = slope_standard_deviation_ns_s;
  }
//= s2e::gnss::BiasSolutionData::GetIdentifier
BiasIdentifier BiasSolutionData_GetIdentifier(BiasSolutionData* self) { return self->identifier_; }
//= s2e::gnss::BiasSolutionData::GetSatelliteSvnCode
std::string BiasSolutionData_GetSatelliteSvnCode(BiasSolutionData* self) { return self->satellite_svn_code_; }
//= s2e::gnss::BiasSolutionData::GetStationName
std::string BiasSolutionData_GetStationName(BiasSolutionData* self) { return self->station_name_; }
//= s2e::gnss::BiasSolutionData::GetTargetSignal
BiasTargetSignal BiasSolutionData_GetTargetSignal(BiasSolutionData* self) { return self->target_signal_; }
//= s2e::gnss::BiasSolutionData::GetUnit
BiasUnit BiasSolutionData_GetUnit(BiasSolutionData* self) { return self->unit_; }
//= s2e::gnss::BiasSolutionData::GetBias
double BiasSolutionData_GetBias(BiasSolutionData* self) { return self->bias_; }
//= s2e::gnss::BiasSolutionData::GetBiasStandardDeviation
double BiasSolutionData_GetBiasStandardDeviation(BiasSolutionData* self) { return self->bias_standard_deviation_; }
//= s2e::gnss::BiasSolutionData::GetSlope
double BiasSolutionData_GetSlope(BiasSolutionData* self) { return self->slope_ns_s_; }
//= s2e::gnss::BiasSolutionData::GetSlopeStandardDeviation
double BiasSolutionData_GetSlopeStandardDeviation(BiasSolutionData* self) { return self->slope_standard_deviation_ns_s_; }
//= s2e::gnss::BiasSinexFileReader::BiasSinexFileReader
void BiasSinexFileReader_Ctor(BiasSinexFileReader* self, const std::string file_name) { self->is_file_read_succeeded_ = self->ReadFile(file_name); }
//= s2e::gnss::BiasSinexFileReader::GetFileReadSuccessFlag
bool BiasSinexFileReader_GetFileReadSuccessFlag(BiasSinexFileReader* self) { return self->is_file_read_succeeded_; }
//= s2e::gnss::BiasSinexFileReader::GetNumberOfBiasData
size_t BiasSinexFileReader_GetNumberOfBiasData(BiasSinexFileReader* self) { return self->solution_data_.size(); }
//= s2e::gnss::BiasSinexFileReader::GetBiasData
BiasSolutionData BiasSinexFileReader_GetBiasData(BiasSinexFileReader* self, const size_t index) { return self->solution_data_[index]; }
}

// ---------------------------------------------------------------- math_physics/gnss/igs_product_name_handling.hpp
namespace s2e::gnss::ref {
//= s2e::gnss::GetOrbitClockFinalFileName
std::string _GetOrbitClockFinalFileName(const std::string header, const size_t year_doy, const std::string period, const std::string file_type) {
  std::string file_name = header + "_" + std::to_string(year_doy) + "0000_01D_" + period + "_" + file_type;

  return file_name;
}
//= s2e::gnss::MergeYearDoy
size_t _MergeYearDoy(const size_t year, const size_t doy) { return year * 1000 + doy; }
//= s2e::gnss::PerseYearFromYearDoy
size_t _PerseYearFromYearDoy(const size_t year_doy) { return year_doy / 1000; }
//= s2e::gnss::PerseDoyFromYearDoy
size_t _PerseDoyFromYearDoy(const size_t year_doy) {
  size_t year = PerseYearFromYearDoy(year_doy);
  return year_doy - year * 1000;
}
//= s2e::gnss::IncrementYearDoy
size_t _IncrementYearDoy(const size_t year_doy) {
  size_t output = year_doy + 1;
  size_t doy = PerseDoyFromYearDoy(output);

  // Year update
  if (doy > 365) {
    size_t year = PerseYearFromYearDoy(output);
    // Leap year
    if (year % 4 == 0) {
      if (doy > 366) {
        year++;
        doy = 1;
      }
    } else {
      year++;
      doy = 1;
    }
    output = MergeYearDoy(year, doy);
  }

  return output;
}
}

// ---------------------------------------------------------------- math_physics/gnss/sp3_file_reader.hpp
namespace s2e::gnss::ref {
//= s2e::gnss::Sp3FileReader::GetHeader
Sp3Header Sp3FileReader_GetHeader(gnss::Sp3FileReader* self) { return self->header_; }
//= s2e::gnss::Sp3FileReader::GetNumberOfEpoch
size_t Sp3FileReader_GetNumberOfEpoch(gnss::Sp3FileReader* self) { return self->header_.number_of_epoch_; }
//= s2e::gnss::Sp3FileReader::GetNumberOfSatellites
size_t Sp3FileReader_GetNumberOfSatellites(gnss::Sp3FileReader* self) { return self->header_.number_of_satellites_; }
//= s2e::gnss::Sp3FileReader::GetStartEpochDateTime
time_system::DateTime Sp3FileReader_GetStartEpochDateTime(gnss::Sp3FileReader* self) { return self->header_.start_epoch_; }
//= s2e::gnss::Sp3FileReader::GetStartEpochGpsTime
time_system::GpsTime Sp3FileReader_GetStartEpochGpsTime(gnss::Sp3FileReader* self) { return self->header_.start_gps_time_; }
}
