// Reference specification for C43 (parsed, never compiled to code or run): how the sample application is put together.
//! leaves=s2e::components::InitAntenna,s2e::components::InitGnssReceiver,s2e::components::InitGyroSensor,s2e::components::InitMagnetometer,s2e::components::InitMagnetorquer,s2e::components::InitReactionWheel,s2e::components::InitSimpleThruster,s2e::components::InitStarSensor,s2e::components::InitSunSensor,s2e::components::InitTelescope,s2e::components::InitializeAngularVelocityObserver,s2e::components::InitializeAttitudeObserver,s2e::components::InitializeForceGenerator,s2e::components::InitializeOrbitObserver,s2e::components::InitializeTorqueGenerator,s2e::components::InitGsCalculator,s2e::spacecraft::Spacecraft::Spacecraft,s2e::ground_station::GroundStation::Update,s2e::ground_station::GroundStation::LogSetup,s2e::components::GroundStationCalculator::Update,s2e::components::MtqMagnetometerInterference::UpdateInterference
#include "base.hpp"
#include <setting_file_reader/initialize_file_access.hpp>
#include "simulation/case/sample_case.hpp"
#include "simulation/ground_station/sample_ground_station.hpp"
#include "simulation/ground_station/sample_ground_station_components.hpp"
#include "simulation/spacecraft/sample_components.hpp"
#include "simulation/spacecraft/sample_spacecraft.hpp"
namespace s2e::sample::ref {
using namespace components;
//= s2e::sample::SampleComponents::SampleComponents
void Components_Ctor(SampleComponents* self, const dynamics::Dynamics* dynamics, spacecraft::Structure* structure, const environment::LocalEnvironment* local_environment, const environment::GlobalEnvironment* global_environment, const simulation::SimulationConfiguration* configuration, environment::ClockGenerator* clock_generator, const unsigned int spacecraft_id) {
  self->configuration_ = configuration;
  self->dynamics_ = dynamics;
  self->structure_ = structure;
  self->local_environment_ = local_environment;
  self->global_environment_ = global_environment;
  setting_file_reader::IniAccess iniAccess = setting_file_reader::IniAccess(self->configuration_->spacecraft_file_list_[spacecraft_id]);

  
  self->pcu_ = new PowerControlUnit(clock_generator);
  self->pcu_->ConnectPort(0, 0.5, 3.3, 1.0);  
  self->pcu_->ConnectPort(1, 1.0);            
  self->pcu_->ConnectPort(2, 1.0);            

  
  self->obc_ = new OnBoardComputer(1, clock_generator, self->pcu_->GetPowerPort(0));
  self->hils_port_manager_ = new simulation::HilsPortManager();

  
  std::string file_name = iniAccess.ReadString("COMPONENT_FILES", "gyro_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->gyro_sensor_ = new GyroSensor(InitGyroSensor(clock_generator, self->pcu_->GetPowerPort(1), 1, file_name,
                                               self->global_environment_->GetSimulationTime().GetComponentStepTime_s(), self->dynamics_));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "magnetometer_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->magnetometer_ = new Magnetometer(InitMagnetometer(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name,
                                                    self->global_environment_->GetSimulationTime().GetComponentStepTime_s(),
                                                    &(self->local_environment_->GetGeomagneticField())));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "stt_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->star_sensor_ = new StarSensor(InitStarSensor(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name,
                                               self->global_environment_->GetSimulationTime().GetComponentStepTime_s(), self->dynamics_, self->local_environment_));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "ss_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->sun_sensor_ = new SunSensor(InitSunSensor(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name, &(self->local_environment_->GetSolarRadiationPressure()),
                                            &(self->local_environment_->GetCelestialInformation())));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "gnss_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->gnss_receiver_ = new GnssReceiver(InitGnssReceiver(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name, self->dynamics_,
                                                     &(self->global_environment_->GetGnssSatellites()), &(self->global_environment_->GetSimulationTime())));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "magnetorquer_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->magnetorquer_ = new Magnetorquer(InitMagnetorquer(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name,
                                                    self->global_environment_->GetSimulationTime().GetComponentStepTime_s(),
                                                    &(self->local_environment_->GetGeomagneticField())));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "rw_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->reaction_wheel_ = new ReactionWheel(
      InitReactionWheel(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name, self->global_environment_->GetSimulationTime().GetComponentStepTime_s()));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "torque_generator_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->torque_generator_ = new TorqueGenerator(InitializeTorqueGenerator(clock_generator, file_name, self->dynamics_));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "thruster_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->thruster_ = new SimpleThruster(InitSimpleThruster(clock_generator, self->pcu_->GetPowerPort(2), 1, file_name, self->structure_, dynamics));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "telescope_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->telescope_ = new Telescope(InitTelescope(clock_generator, 1, file_name, &(self->dynamics_->GetAttitude()), &(self->global_environment_->GetHipparcosCatalog()),
                                           &(self->local_environment_->GetCelestialInformation()), &(self->dynamics_->GetOrbit())));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "force_generator_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->force_generator_ = new ForceGenerator(InitializeForceGenerator(clock_generator, file_name, self->dynamics_));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "angular_velocity_observer_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->angular_velocity_observer_ = new AngularVelocityObserver(InitializeAngularVelocityObserver(
      clock_generator, file_name, self->global_environment_->GetSimulationTime().GetComponentStepTime_s(), self->dynamics_->GetAttitude()));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "attitude_observer_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->attitude_observer_ = new AttitudeObserver(InitializeAttitudeObserver(clock_generator, file_name, self->dynamics_->GetAttitude()));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "orbit_observer_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->orbit_observer_ = new OrbitObserver(InitializeOrbitObserver(clock_generator, file_name, self->dynamics_->GetOrbit()));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "antenna_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->antenna_ = new Antenna(InitAntenna(1, file_name));

  
  file_name = iniAccess.ReadString("COMPONENT_FILES", "component_interference_file");
  self->configuration_->main_logger_->CopyFileToLogDirectory(file_name);
  self->mtq_magnetometer_interference_ = new MtqMagnetometerInterference(file_name, *self->magnetometer_, *self->magnetorquer_);

  for (int port = 0; port < 3; port++) self->pcu_->GetPowerPort(port)->SetVoltage_V(3.3);
}
//= s2e::sample::SampleComponents::GenerateForce_b_N
math::Vector<3> Force(SampleComponents* self) { return self->thruster_->GetOutputThrust_b_N() + self->force_generator_->GetGeneratedForce_b_N(); }
//= s2e::sample::SampleComponents::GenerateTorque_b_Nm
math::Vector<3> Torque(SampleComponents* self) {
  return self->magnetorquer_->GetOutputTorque_b_Nm() + self->reaction_wheel_->GetOutputTorque_b_Nm() + self->thruster_->GetOutputTorque_b_Nm() + self->torque_generator_->GetGeneratedTorque_b_Nm();
}
//= s2e::sample::SampleComponents::ComponentInterference
void Interference(SampleComponents* self) { self->mtq_magnetometer_interference_->UpdateInterference(); }
//= s2e::sample::SampleComponents::LogSetup
void Components_Log(SampleComponents* self, logger::Logger& logger) {
  logger.AddLogList(self->gyro_sensor_);
  logger.AddLogList(self->magnetometer_);
  logger.AddLogList(self->star_sensor_);
  logger.AddLogList(self->sun_sensor_);
  logger.AddLogList(self->gnss_receiver_);
  logger.AddLogList(self->magnetorquer_);
  logger.AddLogList(self->reaction_wheel_);
  logger.AddLogList(self->thruster_);
  logger.AddLogList(self->telescope_);
  logger.AddLogList(self->force_generator_);
  logger.AddLogList(self->torque_generator_);
  logger.AddLogList(self->angular_velocity_observer_);
  logger.AddLogList(self->attitude_observer_);
  logger.AddLogList(self->orbit_observer_);
}
//= s2e::sample::SampleComponents::GetAntenna
Antenna& Components_Antenna(SampleComponents* self) { return *self->antenna_; }
//= s2e::sample::SampleSpacecraft::GetInstalledComponents
const SampleComponents& Spacecraft_Components(SampleSpacecraft* self) { return *self->sample_components_; }
//= s2e::sample::SampleGsComponents::SampleGsComponents
void Gs_Ctor(SampleGsComponents* self, const simulation::SimulationConfiguration* configuration) {
  self->configuration_ = configuration;
  setting_file_reader::IniAccess ini = setting_file_reader::IniAccess(configuration->ground_station_file_list_[0]);
  std::string antenna = ini.ReadString("COMPONENT_FILES", "ground_station_antenna_file");
  configuration->main_logger_->CopyFileToLogDirectory(antenna);
  self->antenna_ = new components::Antenna(components::InitAntenna(1, antenna));
  std::string calculator = ini.ReadString("COMPONENT_FILES", "ground_station_calculator_file");
  configuration->main_logger_->CopyFileToLogDirectory(calculator);
  self->gs_calculator_ = new components::GroundStationCalculator(components::InitGsCalculator(calculator));
}
//= s2e::sample::SampleGsComponents::CompoLogSetUp
void Gs_Log(SampleGsComponents* self, logger::Logger& logger) { logger.AddLogList(self->gs_calculator_); }
//= s2e::sample::SampleGsComponents::GetAntenna
components::Antenna* Gs_Antenna(SampleGsComponents* self) { return self->antenna_; }
//= s2e::sample::SampleGsComponents::GetGsCalculator
components::GroundStationCalculator* Gs_Calculator(SampleGsComponents* self) { return self->gs_calculator_; }
//= s2e::sample::SampleGroundStation::LogSetup
void Station_Log(SampleGroundStation* self, logger::Logger& logger) {
  self->ground_station::GroundStation::LogSetup(logger);
  self->components_->CompoLogSetUp(logger);
}
//= s2e::sample::SampleGroundStation::Update
void Station_Update(SampleGroundStation* self, const environment::EarthRotation& rotation, const SampleSpacecraft& spacecraft) {
  self->ground_station::GroundStation::Update(rotation, spacecraft);
  self->components_->GetGsCalculator()->Update(spacecraft, spacecraft.GetInstalledComponents().GetAntenna(), *self, *(self->components_->GetAntenna()));
}
//= s2e::sample::SampleSpacecraft::SampleSpacecraft leaves=s2e::sample::SampleComponents::SampleComponents
void Spacecraft_Ctor(SampleSpacecraft* self, const simulation::SimulationConfiguration* simulation_configuration, const environment::GlobalEnvironment* global_environment, const unsigned int spacecraft_id) {
  SampleComponents* installed = new SampleComponents(self->dynamics_, self->structure_, self->local_environment_, global_environment, simulation_configuration, &self->clock_generator_, spacecraft_id);
  self->sample_components_ = installed;
  self->components_ = installed;
}
//= s2e::sample::SampleGroundStation::SampleGroundStation leaves=s2e::sample::SampleGsComponents::SampleGsComponents,s2e::ground_station::GroundStation::GroundStation
void Station_Ctor(SampleGroundStation* self, const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
  self->components_ = new SampleGsComponents(configuration);
}
//= s2e::sample::SampleCase::InitializeTargetObjects
void Case_Init(SampleCase* self) {
  self->sample_spacecraft_ = new SampleSpacecraft(&self->simulation_configuration_, self->global_environment_, 0);
  self->sample_ground_station_ = new SampleGroundStation(&self->simulation_configuration_, 0);
  self->sample_spacecraft_->LogSetup(*(self->simulation_configuration_.main_logger_));
  self->sample_ground_station_->LogSetup(*(self->simulation_configuration_.main_logger_));
}
//= s2e::sample::SampleCase::UpdateTargetObjects leaves=s2e::sample::SampleGroundStation::Update,s2e::spacecraft::Spacecraft::Update
void Case_Update(SampleCase* self) {
  self->sample_spacecraft_->Update(&(self->global_environment_->GetSimulationTime()));
  self->sample_ground_station_->Update(self->global_environment_->GetCelestialInformation().GetEarthRotation(), *self->sample_spacecraft_);
}
//= s2e::sample::SampleCase::GetLogHeader
std::string Case_Header(SampleCase* self) { return "" + logger::WriteScalar("time", "s"); }
//= s2e::sample::SampleCase::GetLogValue
std::string Case_Value(SampleCase* self) { return "" + logger::WriteScalar(self->global_environment_->GetSimulationTime().GetElapsedTime_s()); }
}
