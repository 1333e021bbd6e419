// Reference specification for C39 (parsed, never compiled to code or run).
#include "base.hpp"
#include <ctime>
#include <sstream>
#include <string>
#include "disturbances/air_drag.hpp"
#include "disturbances/disturbances.hpp"
#include "disturbances/geopotential.hpp"
#include "disturbances/gravity_gradient.hpp"
#include "disturbances/lunar_gravity_field.hpp"
#include "disturbances/magnetic_disturbance.hpp"
#include "disturbances/solar_radiation_pressure_disturbance.hpp"
#include "disturbances/third_body_gravity.hpp"
#include "logger/initialize_log.hpp"
#include "logger/log_utility.hpp"
#include "logger/logger.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "simulation/case/simulation_case.hpp"
#include "simulation/multiple_spacecraft/inter_spacecraft_communication.hpp"
#include "simulation/multiple_spacecraft/relative_information.hpp"
#include "simulation/simulation_configuration.hpp"
#include "simulation/spacecraft/installed_components.hpp"
#include "simulation/spacecraft/spacecraft.hpp"
#include "utilities/macros.hpp"
// ---------------------------------------------------------------- simulation/case/simulation_case.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::SimulationCase::SimulationCase(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>)
void SimulationCase_Ctor(SimulationCase* self, const std::string initialize_base_file) {
  // Initialize Log
  self->simulation_configuration_.main_logger_ = logger::InitLog(initialize_base_file);

  // Initialize Simulation Configuration
  self->InitializeSimulationConfiguration(initialize_base_file);
}
//= s2e::simulation::SimulationCase::SimulationCase(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::simulation::MonteCarloSimulationExecutor&,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>)
void SimulationCase_Ctor2(SimulationCase* self, const std::string initialize_base_file, const MonteCarloSimulationExecutor& monte_carlo_simulator, const std::string log_path) {
  if (monte_carlo_simulator.IsEnabled() == false) {
    // Monte Carlo simulation is disabled
    self->simulation_configuration_.main_logger_ = logger::InitLog(initialize_base_file);
  } else {
    // Monte Carlo Simulation is enabled
    std::string log_file_name = "default" + std::to_string(monte_carlo_simulator.GetNumberOfExecutionsDone()) + ".csv";

    setting_file_reader::IniAccess ini_file(initialize_base_file);
    bool save_ini_files = ini_file.ReadEnable("SIMULATION_SETTINGS", "save_initialize_files");

    self->simulation_configuration_.main_logger_ =
        new logger::Logger(log_file_name, log_path, initialize_base_file, save_ini_files, monte_carlo_simulator.GetSaveLogHistoryFlag());
  }
  // Initialize Simulation Configuration
  self->InitializeSimulationConfiguration(initialize_base_file);
}
//= s2e::simulation::SimulationCase::Initialize
void SimulationCase_Initialize(SimulationCase* self) {
  // Target Objects Initialize
  self->InitializeTargetObjects();

  // Write headers to the log
  self->simulation_configuration_.main_logger_->WriteHeaders();

  // Start the simulation
  std::cout << "\nSimulationDateTime \n";
  self->global_environment_->GetSimulationTime().PrintStartDateTime();
}
//= s2e::simulation::SimulationCase::Main leaves=s2e::environment::GlobalEnvironment::Reset,s2e::environment::GlobalEnvironment::Update
void SimulationCase_Main(SimulationCase* self) {
  self->global_environment_->Reset();  // for MonteCarlo Simulation
  while (!self->global_environment_->GetSimulationTime().GetState().finish) {
    // Logging
    if (self->global_environment_->GetSimulationTime().GetState().log_output) {
      self->simulation_configuration_.main_logger_->WriteValues();
    }

    // Global Environment Update
    self->global_environment_->Update();

    // Target Objects Update
    self->UpdateTargetObjects();

    // Debug output
    if (self->global_environment_->GetSimulationTime().GetState().disp_output) {
      std::cout << "Progress: " << self->global_environment_->GetSimulationTime().GetProgressionRate() << "%\r";
    }
  }
}
//= s2e::simulation::SimulationCase::InitializeSimulationConfiguration
void SimulationCase_InitializeSimulationConfiguration(SimulationCase* self, const std::string initialize_base_file) {
  // Initialize
  setting_file_reader::IniAccess simulation_base_ini = setting_file_reader::IniAccess(initialize_base_file);
  const char* section = "SIMULATION_SETTINGS";
  self->simulation_configuration_.initialize_base_file_name_ = initialize_base_file;

  // Spacecraft
  self->simulation_configuration_.number_of_simulated_spacecraft_ = simulation_base_ini.ReadInt(section, "number_of_simulated_spacecraft");
  self->simulation_configuration_.spacecraft_file_list_ = simulation_base_ini.ReadStrVector(section, "spacecraft_file");

  // Ground Station
  self->simulation_configuration_.number_of_simulated_ground_station_ = simulation_base_ini.ReadInt(section, "number_of_simulated_ground_station");
  self->simulation_configuration_.ground_station_file_list_ = simulation_base_ini.ReadStrVector(section, "ground_station_file");

  // Others
  self->simulation_configuration_.inter_sc_communication_file_ = simulation_base_ini.ReadString(section, "inter_sat_comm_file");
  self->simulation_configuration_.gnss_file_ = simulation_base_ini.ReadString(section, "gnss_file");

  // Global Environment
  self->global_environment_ = new environment::GlobalEnvironment(&self->simulation_configuration_);
  self->global_environment_->LogSetup(*(self->simulation_configuration_.main_logger_));
}
}

// ---------------------------------------------------------------- simulation/case/simulation_case.hpp
namespace s2e::simulation::ref {
//= s2e::simulation::SimulationCase::GetSimulationConfiguration
SimulationConfiguration& SimulationCase_GetSimulationConfiguration(SimulationCase* self) { return self->simulation_configuration_; }
//= s2e::simulation::SimulationCase::GetGlobalEnvironment
environment::GlobalEnvironment& SimulationCase_GetGlobalEnvironment(SimulationCase* self) { return *self->global_environment_; }
}

// ---------------------------------------------------------------- simulation/multiple_spacecraft/inter_spacecraft_communication.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::InterSpacecraftCommunication::InterSpacecraftCommunication
void InterSpacecraftCommunication_Ctor(InterSpacecraftCommunication* self, const SimulationConfiguration* simulation_configuration) {
  UNUSED(simulation_configuration);
}
}

// ---------------------------------------------------------------- simulation/multiple_spacecraft/relative_information.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::RelativeInformation::RelativeInformation
void RelativeInformation_Ctor(RelativeInformation* self) {}
//= s2e::simulation::RelativeInformation::Update
void RelativeInformation_Update(RelativeInformation* self) {
  for (size_t target_spacecraft_id = 0; target_spacecraft_id < self->dynamics_database_.size(); target_spacecraft_id++) {
    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < self->dynamics_database_.size(); reference_spacecraft_id++) {
      // Position
      math::Vector<3> target_sat_pos_i = self->dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
      math::Vector<3> reference_sat_pos_i = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
      self->relative_position_list_i_m_[target_spacecraft_id][reference_spacecraft_id] = target_sat_pos_i - reference_sat_pos_i;
      self->relative_position_list_rtn_m_[target_spacecraft_id][reference_spacecraft_id] =
          self->CalcRelativePosition_rtn_m(target_spacecraft_id, reference_spacecraft_id);

      // Distance
      self->relative_distance_list_m_[target_spacecraft_id][reference_spacecraft_id] =
          self->relative_position_list_i_m_[target_spacecraft_id][reference_spacecraft_id].CalcNorm();

      // Velocity
      math::Vector<3> target_sat_vel_i = self->dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetVelocity_i_m_s();
      math::Vector<3> reference_sat_vel_i = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetVelocity_i_m_s();
      self->relative_velocity_list_i_m_s_[target_spacecraft_id][reference_spacecraft_id] = target_sat_vel_i - reference_sat_vel_i;
      self->relative_velocity_list_rtn_m_s_[target_spacecraft_id][reference_spacecraft_id] =
          self->CalcRelativeVelocity_rtn_m_s(target_spacecraft_id, reference_spacecraft_id);

      // Attitude Quaternion
      self->relative_attitude_quaternion_list_[target_spacecraft_id][reference_spacecraft_id] =
          self->CalcRelativeAttitudeQuaternion(target_spacecraft_id, reference_spacecraft_id);
    }
  }
}
//= s2e::simulation::RelativeInformation::RegisterDynamicsInfo
void RelativeInformation_RegisterDynamicsInfo(RelativeInformation* self, const size_t spacecraft_id, const dynamics::Dynamics* dynamics) {
  self->dynamics_database_.emplace(spacecraft_id, dynamics);
  self->ResizeLists();
}
//= s2e::simulation::RelativeInformation::RemoveDynamicsInfo
void RelativeInformation_RemoveDynamicsInfo(RelativeInformation* self, const size_t spacecraft_id) {
  self->dynamics_database_.erase(spacecraft_id);
  self->ResizeLists();
}
//= s2e::simulation::RelativeInformation::LogSetup
void RelativeInformation_LogSetup(RelativeInformation* self, logger::Logger& logger) { logger.AddLogList(self); }
//= s2e::simulation::RelativeInformation::CalcRelativeAttitudeQuaternion
math::Quaternion RelativeInformation_CalcRelativeAttitudeQuaternion(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
  // Observer SC Body frame(obs_sat) -> ECI frame(i)
  math::Quaternion q_reference_i2b = self->dynamics_database_.at(reference_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
  math::Quaternion q_reference_b2i = q_reference_i2b.Conjugate();

  // ECI frame(i) -> Target SC body frame(main_sat)
  math::Quaternion q_target_i2b = self->dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();

  return q_reference_b2i * q_target_i2b;
}
//= s2e::simulation::RelativeInformation::CalcRelativePosition_rtn_m
math::Vector<3> RelativeInformation_CalcRelativePosition_rtn_m(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
  math::Vector<3> target_sat_pos_i = self->dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
  math::Vector<3> reference_sat_pos_i = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
  math::Vector<3> relative_pos_i = target_sat_pos_i - reference_sat_pos_i;

  // RTN frame for the reference satellite
  math::Quaternion q_i2rtn = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().CalcQuaternion_i2lvlh();

  math::Vector<3> relative_pos_rtn = q_i2rtn.FrameConversion(relative_pos_i);
  return relative_pos_rtn;
}
//= s2e::simulation::RelativeInformation::CalcRelativeVelocity_rtn_m_s
math::Vector<3> RelativeInformation_CalcRelativeVelocity_rtn_m_s(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
  math::Vector<3> target_sat_pos_i = self->dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
  math::Vector<3> reference_sat_pos_i = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
  math::Vector<3> relative_pos_i = target_sat_pos_i - reference_sat_pos_i;

  // RTN frame for the reference satellite
  math::Quaternion q_i2rtn = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().CalcQuaternion_i2lvlh();

  // Rotation vector of RTN frame
  math::Vector<3> reference_sat_vel_i = self->dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetVelocity_i_m_s();
  math::Vector<3> target_sat_vel_i = self->dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetVelocity_i_m_s();
  math::Vector<3> rot_vec_rtn_i = cross(reference_sat_pos_i, reference_sat_vel_i);
  double r2_ref = reference_sat_pos_i.CalcNorm() * reference_sat_pos_i.CalcNorm();
  rot_vec_rtn_i /= r2_ref;
  math::Vector<3> relative_vel_i = target_sat_vel_i - reference_sat_vel_i - cross(rot_vec_rtn_i, relative_pos_i);

  math::Vector<3> relative_vel_rtn = q_i2rtn.FrameConversion(relative_vel_i);
  return relative_vel_rtn;
}
//= s2e::simulation::RelativeInformation::ResizeLists
void RelativeInformation_ResizeLists(RelativeInformation* self) {
  size_t size = self->dynamics_database_.size();
  self->relative_position_list_i_m_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
  self->relative_velocity_list_i_m_s_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
  self->relative_distance_list_m_.assign(size, std::vector<double>(size, 0.0));
  self->relative_position_list_rtn_m_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
  self->relative_velocity_list_rtn_m_s_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
  self->relative_attitude_quaternion_list_.assign(size, std::vector<math::Quaternion>(size, math::Quaternion(0, 0, 0, 1)));
}
}

// ---------------------------------------------------------------- simulation/multiple_spacecraft/relative_information.hpp
namespace s2e::simulation::ref {
//= s2e::simulation::RelativeInformation::GetRelativeAttitudeQuaternion
math::Quaternion RelativeInformation_GetRelativeAttitudeQuaternion(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
    return self->relative_attitude_quaternion_list_[target_spacecraft_id][reference_spacecraft_id];
  }
//= s2e::simulation::RelativeInformation::GetRelativePosition_i_m
math::Vector<3> RelativeInformation_GetRelativePosition_i_m(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
    return self->relative_position_list_i_m_[target_spacecraft_id][reference_spacecraft_id];
  }
//= s2e::simulation::RelativeInformation::GetRelativeVelocity_i_m_s
math::Vector<3> RelativeInformation_GetRelativeVelocity_i_m_s(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
    return self->relative_velocity_list_i_m_s_[target_spacecraft_id][reference_spacecraft_id];
  }
//= s2e::simulation::RelativeInformation::GetRelativeDistance_m
double RelativeInformation_GetRelativeDistance_m(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
    return self->relative_distance_list_m_[target_spacecraft_id][reference_spacecraft_id];
  }
//= s2e::simulation::RelativeInformation::GetRelativePosition_rtn_m
math::Vector<3> RelativeInformation_GetRelativePosition_rtn_m(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
    return self->relative_position_list_rtn_m_[target_spacecraft_id][reference_spacecraft_id];
  }
//= s2e::simulation::RelativeInformation::GetRelativeVelocity_rtn_m_s
math::Vector<3> RelativeInformation_GetRelativeVelocity_rtn_m_s(RelativeInformation* self, const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
    return self->relative_velocity_list_rtn_m_s_[target_spacecraft_id][reference_spacecraft_id];
  }
//= s2e::simulation::RelativeInformation::GetReferenceSatDynamics
const dynamics::Dynamics* RelativeInformation_GetReferenceSatDynamics(const RelativeInformation* self, const size_t reference_spacecraft_id) {
    return self->dynamics_database_.at(reference_spacecraft_id);
  }
}

// ---------------------------------------------------------------- simulation/spacecraft/installed_components.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::InstalledComponents::GenerateForce_b_N
math::Vector<3> InstalledComponents_GenerateForce_b_N(InstalledComponents* self) {
  math::Vector<3> force_b_N_(0.0);
  return force_b_N_;
}
//= s2e::spacecraft::InstalledComponents::GenerateTorque_b_Nm
math::Vector<3> InstalledComponents_GenerateTorque_b_Nm(InstalledComponents* self) {
  math::Vector<3> torque_b_Nm_(0.0);
  return torque_b_Nm_;
}
//= s2e::spacecraft::InstalledComponents::LogSetup
void InstalledComponents_LogSetup(InstalledComponents* self, logger::Logger& logger) { UNUSED(logger); }
}

// ---------------------------------------------------------------- simulation/spacecraft/spacecraft.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Spacecraft::Spacecraft(consts2e::simulation::SimulationConfiguration*,consts2e::environment::GlobalEnvironment*,constint,s2e::simulation::RelativeInformation*)
void Spacecraft_Ctor(Spacecraft* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::GlobalEnvironment* global_environment, const int spacecraft_id, simulation::RelativeInformation* relative_information) {
  const_cast<unsigned int&>(self->spacecraft_id_) = spacecraft_id;
  self->components_ = nullptr;

  self->Initialize(simulation_configuration, global_environment, spacecraft_id, relative_information);
}
//= s2e::spacecraft::Spacecraft::Initialize
void Spacecraft_Initialize(Spacecraft* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::GlobalEnvironment* global_environment, const int spacecraft_id, simulation::RelativeInformation* relative_information) {
  self->clock_generator_.ClearTimerCount();
  self->structure_ = new spacecraft::Structure(simulation_configuration, spacecraft_id);
  self->local_environment_ = new environment::LocalEnvironment(simulation_configuration, global_environment, spacecraft_id);
  self->dynamics_ = new dynamics::Dynamics(simulation_configuration, &(global_environment->GetSimulationTime()), self->local_environment_, spacecraft_id,
                                     self->structure_, relative_information);
  self->disturbances_ = new disturbances::Disturbances(simulation_configuration, spacecraft_id, self->structure_, global_environment);

  simulation_configuration->main_logger_->CopyFileToLogDirectory(simulation_configuration->spacecraft_file_list_[spacecraft_id]);

  self->relative_information_ = relative_information;
  if (self->relative_information_ != nullptr) {
    self->relative_information_->RegisterDynamicsInfo(spacecraft_id, self->dynamics_);
  }
}
//= s2e::spacecraft::Spacecraft::LogSetup
void Spacecraft_LogSetup(Spacecraft* self, logger::Logger& logger) {
  self->dynamics_->LogSetup(logger);
  self->local_environment_->LogSetup(logger);
  self->disturbances_->LogSetup(logger);
  self->components_->LogSetup(logger);
}
//= s2e::spacecraft::Spacecraft::Update leaves=s2e::dynamics::Dynamics::ClearForceTorque,s2e::environment::LocalEnvironment::Update,s2e::disturbances::Disturbances::Update,s2e::dynamics::Dynamics::Update,s2e::environment::ClockGenerator::UpdateComponents,s2e::simulation::RelativeInformation::Update
void Spacecraft_Update(Spacecraft* self, const environment::SimulationTime* simulation_time) {
  self->dynamics_->ClearForceTorque();

  // Update local environment and disturbance
  self->local_environment_->Update(self->dynamics_, simulation_time);
  self->disturbances_->Update(*self->local_environment_, *self->dynamics_, simulation_time);

  // Update components
  self->clock_generator_.UpdateComponents(simulation_time);
  self->components_->ComponentInterference();

  // Add generated force and torque by disturbances
  self->dynamics_->AddAcceleration_i_m_s2(self->disturbances_->GetAcceleration_i_m_s2());
  self->dynamics_->AddTorque_b_Nm(self->disturbances_->GetTorque_b_Nm());
  self->dynamics_->AddForce_b_N(self->disturbances_->GetForce_b_N());

  // Add generated force and torque by components
  self->dynamics_->AddTorque_b_Nm(self->components_->GenerateTorque_b_Nm());
  self->dynamics_->AddForce_b_N(self->components_->GenerateForce_b_N());

  // Propagate dynamics
  self->dynamics_->Update(simulation_time, &(self->local_environment_->GetCelestialInformation()));
}
//= s2e::spacecraft::Spacecraft::Clear
void Spacecraft_Clear(Spacecraft* self) { self->dynamics_->ClearForceTorque(); }
}

// ---------------------------------------------------------------- simulation/spacecraft/installed_components.hpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::InstalledComponents::ComponentInterference
void InstalledComponents_ComponentInterference(InstalledComponents* self) {}
}

// ---------------------------------------------------------------- simulation/spacecraft/spacecraft.hpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Spacecraft::GetDynamics
dynamics::Dynamics& Spacecraft_GetDynamics(Spacecraft* self) { return *self->dynamics_; }
//= s2e::spacecraft::Spacecraft::GetLocalEnvironment
environment::LocalEnvironment& Spacecraft_GetLocalEnvironment(Spacecraft* self) { return *self->local_environment_; }
//= s2e::spacecraft::Spacecraft::GetDisturbances
disturbances::Disturbances& Spacecraft_GetDisturbances(Spacecraft* self) { return *self->disturbances_; }
//= s2e::spacecraft::Spacecraft::GetStructure
spacecraft::Structure& Spacecraft_GetStructure(Spacecraft* self) { return *self->structure_; }
//= s2e::spacecraft::Spacecraft::GetInstalledComponents
InstalledComponents& Spacecraft_GetInstalledComponents(Spacecraft* self) { return *self->components_; }
//= s2e::spacecraft::Spacecraft::GetSpacecraftId
unsigned int Spacecraft_GetSpacecraftId(Spacecraft* self) { return self->spacecraft_id_; }
}

// ---------------------------------------------------------------- logger/initialize_log.cpp
namespace s2e::logger::ref {
namespace fs = std::filesystem;
//= s2e::logger::InitLog
Logger* _InitLog(std::string file_name) {
  setting_file_reader::IniAccess ini_file(file_name);

  std::string log_file_path = ini_file.ReadString("SIMULATION_SETTINGS", "log_file_save_directory");
  bool log_ini = ini_file.ReadEnable("SIMULATION_SETTINGS", "save_initialize_files");

  Logger* log = new Logger("default.csv", log_file_path, file_name, log_ini, true);

  return log;
}
//= s2e::logger::InitMonteCarloLog
Logger* _InitMonteCarloLog(std::string file_name, bool enable) {
  setting_file_reader::IniAccess ini_file(file_name);

  std::string log_file_path = ini_file.ReadString("SIMULATION_SETTINGS", "log_file_save_directory");
  bool log_ini = ini_file.ReadEnable("SIMULATION_SETTINGS", "save_initialize_files");

  Logger* log = new Logger("monte_carlo.csv", log_file_path, file_name, log_ini, enable);

  return log;
}
}

// ---------------------------------------------------------------- logger/logger.cpp
namespace s2e::logger::ref {
namespace fs = std::filesystem;
//= s2e::logger::Logger::Logger
void Logger_Ctor(Logger* self, const std::string &file_name, const fs::path &data_path, const fs::path &ini_file_name, const bool is_ini_save_enabled, const bool is_enabled) {
  self->is_enabled_ = is_enabled;
  self->is_ini_save_enabled_ = is_ini_save_enabled;

  self->is_file_opened_ = false;
  if (self->is_enabled_ == false) return;

  // Set current time to filename prefix
  time_t timer = time(NULL);
  struct tm *now;
  now = localtime(&timer);
  char start_time_c[64];
  strftime(start_time_c, 64, "%y%m%d_%H%M%S", now);

  const auto file_prefix = std::string(start_time_c) + "_";

  // Create directory
  if (self->is_ini_save_enabled_ == true || Logger::is_directory_created_ == false) {
    self->directory_path_ = self->CreateDirectory(data_path, start_time_c);
  } else {
    self->directory_path_ = data_path;
  }

  // Create File
  fs::path file_path = self->directory_path_ / (file_prefix + file_name);
  if (self->is_enabled_) {
    self->csv_file_.open(file_path.string());
    self->is_file_opened_ = self->csv_file_.is_open();
    if (!self->is_file_opened_) std::cerr << "Error opening log file: " << file_path << std::endl;
  }

  // Copy SimBase.ini
  self->CopyFileToLogDirectory(ini_file_name);
}
//= s2e::logger::Logger::WriteHeaders
void Logger_WriteHeaders(Logger* self, const bool add_newline) {
  for (auto itr = self->log_list_.begin(); itr != self->log_list_.end(); ++itr) {
    if (!((*itr)->is_log_enabled_)) continue;
    self->Write((*itr)->GetLogHeader());
  }
  if (add_newline) self->WriteNewLine();
}
//= s2e::logger::Logger::WriteValues
void Logger_WriteValues(Logger* self, const bool add_newline) {
  for (auto itr = self->log_list_.begin(); itr != self->log_list_.end(); ++itr) {
    if (!((*itr)->is_log_enabled_)) continue;
    self->Write((*itr)->GetLogValue());
  }
  if (add_newline) self->WriteNewLine();
}
//= s2e::logger::Logger::WriteNewLine
void Logger_WriteNewLine(Logger* self) { self->Write("\n"); }
//= s2e::logger::Logger::Write
void Logger_Write(Logger* self, const std::string log, const bool flag) {
  if (flag && self->is_enabled_) {
    self->csv_file_ << log;
  }
}
//= s2e::logger::Logger::AddLogList
void Logger_AddLogList(Logger* self, ILoggable *loggable) { self->log_list_.push_back(loggable); }
//= s2e::logger::Logger::ClearLogList
void Logger_ClearLogList(Logger* self) { self->log_list_.clear(); }
//= s2e::logger::Logger::CreateDirectory
fs::path Logger_CreateDirectory(Logger* self, const fs::path &data_path, const std::string &time) {
  fs::path log_dir_ = data_path;
  log_dir_.append(std::string("logs_") + time);

  fs::create_directories(log_dir_);

  return log_dir_;
}
//= s2e::logger::Logger::CopyFileToLogDirectory
void Logger_CopyFileToLogDirectory(Logger* self, const fs::path &ini_file_name) {
  if (self->is_ini_save_enabled_ == false) return;
  // Copy files to the directory
  fs::path to_file_name = self->directory_path_ / ini_file_name.filename();

  if (fs::exists(to_file_name)) {
    std::cout << "File " << to_file_name << " already exists. Skip copy from" << ini_file_name << std::endl;
    return;
  }

  fs::copy_file(ini_file_name, to_file_name);
  return;
}
}

// ---------------------------------------------------------------- logger/logger.hpp
namespace s2e::logger::ref {
namespace fs = std::filesystem;
//= s2e::logger::Logger::Enable
void Logger_Enable(Logger* self, const bool enable) { self->is_enabled_ = enable; }
//= s2e::logger::Logger::IsEnabled
bool Logger_IsEnabled(Logger* self) { return self->is_enabled_; }
//= s2e::logger::Logger::GetLogPath
std::filesystem::path Logger_GetLogPath(Logger* self) { return self->directory_path_; }
}

// ---------------------------------------------------------------- disturbances/disturbances.cpp
namespace s2e::disturbances::ref {
//= s2e::disturbances::Disturbances::Disturbances
void Disturbances_Ctor(Disturbances* self, const simulation::SimulationConfiguration* simulation_configuration, const int spacecraft_id, const spacecraft::Structure* structure, const environment::GlobalEnvironment* global_environment) {
  self->InitializeInstances(simulation_configuration, spacecraft_id, structure, global_environment);
  self->InitializeForceAndTorque();
  self->InitializeAcceleration();
}
//= s2e::disturbances::Disturbances::Update
void Disturbances_Update(Disturbances* self, const environment::LocalEnvironment& local_environment, const dynamics::Dynamics& dynamics, const environment::SimulationTime* simulation_time) {
  self->InitializeForceAndTorque();
  self->InitializeAcceleration();

  for (auto disturbance : self->disturbances_list_) {
    if (simulation_time->GetOrbitPropagateFlag()) {
      // Update disturbances that depend only on the position
      disturbance->UpdateIfEnabled(local_environment, dynamics);
    } else if (simulation_time->GetAttitudePropagateFlag()) {
      // Update disturbances that depend on the attitude (and the position)
      if (disturbance->IsAttitudeDependent() == true) {
        disturbance->UpdateIfEnabled(local_environment, dynamics);
      }
    }
    self->total_torque_b_Nm_ += disturbance->GetTorque_b_Nm();
    self->total_force_b_N_ += disturbance->GetForce_b_N();
    self->total_acceleration_i_m_s2_ += disturbance->GetAcceleration_i_m_s2();
  }
}
//= s2e::disturbances::Disturbances::LogSetup
void Disturbances_LogSetup(Disturbances* self, logger::Logger& logger) {
  for (auto disturbance : self->disturbances_list_) {
    logger.AddLogList(disturbance);
  }
  logger.CopyFileToLogDirectory(self->initialize_file_name_);
}
//= s2e::disturbances::Disturbances::InitializeInstances
void Disturbances_InitializeInstances(Disturbances* self, const simulation::SimulationConfiguration* simulation_configuration, const int spacecraft_id, const spacecraft::Structure* structure, const environment::GlobalEnvironment* global_environment) {
  setting_file_reader::IniAccess ini_access = setting_file_reader::IniAccess(simulation_configuration->spacecraft_file_list_[spacecraft_id]);
  self->initialize_file_name_ = ini_access.ReadString("SETTING_FILES", "disturbance_file");

  GravityGradient* gg_dist = new GravityGradient(
      InitGravityGradient(self->initialize_file_name_, global_environment->GetCelestialInformation().GetCenterBodyGravityConstant_m3_s2()));
  self->disturbances_list_.push_back(gg_dist);

  SolarRadiationPressureDisturbance* srp_dist = new SolarRadiationPressureDisturbance(InitSolarRadiationPressureDisturbance(
      self->initialize_file_name_, structure->GetSurfaces(), structure->GetKinematicsParameters().GetCenterOfGravity_b_m()));
  self->disturbances_list_.push_back(srp_dist);

  ThirdBodyGravity* third_body_gravity =
      new ThirdBodyGravity(InitThirdBodyGravity(self->initialize_file_name_, simulation_configuration->initialize_base_file_name_));
  self->disturbances_list_.push_back(third_body_gravity);

  if (global_environment->GetCelestialInformation().GetCenterBodyName() == "MOON") {
    LunarGravityField* lunar_gravity_field = new LunarGravityField(InitLunarGravityField(self->initialize_file_name_));
    self->disturbances_list_.push_back(lunar_gravity_field);
  }

  if (global_environment->GetCelestialInformation().GetCenterBodyName() != "EARTH") return;
  // Earth only disturbances (TODO: implement disturbances for other center bodies)
  AirDrag* air_dist =
      new AirDrag(InitAirDrag(self->initialize_file_name_, structure->GetSurfaces(), structure->GetKinematicsParameters().GetCenterOfGravity_b_m()));
  self->disturbances_list_.push_back(air_dist);

  MagneticDisturbance* mag_dist = new MagneticDisturbance(InitMagneticDisturbance(self->initialize_file_name_, structure->GetResidualMagneticMoment()));
  self->disturbances_list_.push_back(mag_dist);

  Geopotential* geopotential = new Geopotential(InitGeopotential(self->initialize_file_name_));
  self->disturbances_list_.push_back(geopotential);
}
//= s2e::disturbances::Disturbances::InitializeForceAndTorque
void Disturbances_InitializeForceAndTorque(Disturbances* self) {
  self->total_torque_b_Nm_ = math::Vector<3>(0.0);
  self->total_force_b_N_ = math::Vector<3>(0.0);
}
//= s2e::disturbances::Disturbances::InitializeAcceleration
void Disturbances_InitializeAcceleration(Disturbances* self) { self->total_acceleration_i_m_s2_ = math::Vector<3>(0.0); }
}

// ---------------------------------------------------------------- disturbances/disturbances.hpp
namespace s2e::disturbances::ref {
//= s2e::disturbances::Disturbances::GetTorque_b_Nm
math::Vector<3> Disturbances_GetTorque_b_Nm(Disturbances* self) { return self->total_torque_b_Nm_; }
//= s2e::disturbances::Disturbances::GetForce_b_N
math::Vector<3> Disturbances_GetForce_b_N(Disturbances* self) { return self->total_force_b_N_; }
//= s2e::disturbances::Disturbances::GetAcceleration_i_m_s2
math::Vector<3> Disturbances_GetAcceleration_i_m_s2(Disturbances* self) { return self->total_acceleration_i_m_s2_; }
}
