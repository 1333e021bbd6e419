// Reference specification for C42 (parsed, never compiled to code or run): the end of life of every class whose destructor does something.
#include "base.hpp"
#include <iostream>
#include "components/base/i2c_controller.hpp"
#include "components/base/i2c_target_communication_with_obc.hpp"
#include "components/base/uart_communication_with_obc.hpp"
#include "components/ports/uart_port.hpp"
#include "components/real/cdh/on_board_computer.hpp"
#include "components/real/power/power_control_unit.hpp"
#include "disturbances/disturbances.hpp"
#include "dynamics/dynamics.hpp"
#include "environment/global/celestial_information.hpp"
#include "environment/global/clock_generator.hpp"
#include "environment/global/global_environment.hpp"
#include "environment/local/local_environment.hpp"
#include "logger/logger.hpp"
#include "simulation/case/simulation_case.hpp"
#include "simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp"
#include "simulation/spacecraft/spacecraft.hpp"
#include "simulation/multiple_spacecraft/relative_information.hpp"
#include "utilities/ring_buffer.hpp"
#include "simulation/case/sample_case.hpp"
#include "simulation/ground_station/sample_ground_station.hpp"
#include "simulation/ground_station/sample_ground_station_components.hpp"
#include "simulation/spacecraft/sample_components.hpp"
#include "simulation/spacecraft/sample_spacecraft.hpp"
namespace s2e::components::ref {
//= s2e::components::Component::~Component
void Component_Dtor(Component* self) { self->clock_generator_->RemoveComponent(self); }
//= s2e::components::UartCommunicationWithObc::~UartCommunicationWithObc
void Uart_Dtor(UartCommunicationWithObc* self) {
  if (!self->is_connected_) return;
  if (self->simulation_mode_ == SimulationMode::kSils) self->obc_->CloseComPort(self->sils_port_id_);
  if (self->simulation_mode_ == SimulationMode::kHils) self->hils_port_manager_->UartCloseComPort(self->hils_port_id_);
}
//= s2e::components::I2cTargetCommunicationWithObc::~I2cTargetCommunicationWithObc
void I2cTarget_Dtor(I2cTargetCommunicationWithObc* self) {
  if (self->is_moved_) return;
  if (self->simulation_mode_ == SimulationMode::kSils) self->obc_->I2cCloseComPort(self->sils_port_id_);
  if (self->simulation_mode_ == SimulationMode::kHils) self->hils_port_manager_->I2cTargetCloseComPort(self->hils_port_id_);
}
//= s2e::components::I2cController::~I2cController
void I2cController_Dtor(I2cController* self) {
  if (self->simulation_mode_ == SimulationMode::kHils) self->hils_port_manager_->I2cControllerCloseComPort(self->hils_port_id_);
}
//= s2e::components::UartPort::~UartPort
void UartPort_Dtor(UartPort* self) {
  delete self->rx_buffer_;
  delete self->tx_buffer_;
}
//= s2e::components::OnBoardComputer::~OnBoardComputer
void Obc_Dtor(OnBoardComputer* self) {
  for (auto& p : self->uart_ports_) delete p.second;
  for (auto& p : self->i2c_ports_) delete p.second;
  for (auto& p : self->gpio_ports_) delete p.second;
}
//= s2e::components::PowerControlUnit::~PowerControlUnit
void Pcu_Dtor(PowerControlUnit* self) {
  for (auto& p : self->power_ports_) delete p.second;
}
}
namespace s2e::utilities::ref {
//= s2e::utilities::RingBuffer::~RingBuffer
void RingBuffer_Dtor(RingBuffer* self) { delete[] self->buffer_; }
}
namespace s2e::environment::ref {
//= s2e::environment::ClockGenerator::RegisterComponent
void Register(ClockGenerator* self, components::ITickable* tickable) { self->components_.push_back(tickable); }
//= s2e::environment::ClockGenerator::RemoveComponent
void Remove(ClockGenerator* self, components::ITickable* tickable) {
  for (auto itr = self->components_.begin(); itr != self->components_.end();) {
    if (*itr == tickable) {
      self->components_.erase(itr++);
      break;
    } else {
      ++itr;
    }
  }
}
//= s2e::environment::CelestialInformation::~CelestialInformation
void Celestial_Dtor(CelestialInformation* self) {
  delete[] self->celestial_body_position_from_center_i_m_;
  delete[] self->celestial_body_velocity_from_center_i_m_s_;
  delete[] self->celestial_body_gravity_constant_m3_s2_;
  delete[] self->celestial_body_mean_radius_m_;
  delete[] self->celestial_body_planetographic_radii_m_;
  delete[] self->selected_body_ids_;
  delete self->earth_rotation_;
  delete self->moon_rotation_;
}
//= s2e::environment::GlobalEnvironment::~GlobalEnvironment
void Global_Dtor(GlobalEnvironment* self) {
  delete self->simulation_time_;
  delete self->celestial_information_;
  delete self->hipparcos_catalogue_;
  delete self->gnss_satellites_;
}
//= s2e::environment::LocalEnvironment::~LocalEnvironment
void Local_Dtor(LocalEnvironment* self) {
  delete self->geomagnetic_field_;
  delete self->solar_radiation_pressure_environment_;
  delete self->earth_albedo_;
  delete self->earth_infrared_;
  delete self->atmosphere_;
  delete self->celestial_information_;
}
//= s2e::environment::LocalCelestialInformation::~LocalCelestialInformation
void LocalCelestial_Dtor(LocalCelestialInformation* self) {
  delete[] self->celestial_body_position_from_center_b_m_;
  delete[] self->celestial_body_velocity_from_center_b_m_s_;
  delete[] self->celestial_body_position_from_spacecraft_i_m_;
  delete[] self->celestial_body_velocity_from_spacecraft_i_m_s_;
  delete[] self->celestial_body_position_from_spacecraft_b_m_;
  delete[] self->celestial_body_velocity_from_spacecraft_b_m_s_;
}
}
namespace s2e::disturbances::ref {
//= s2e::disturbances::Disturbances::~Disturbances
void Disturbances_Dtor(Disturbances* self) {
  for (auto disturbance : self->disturbances_list_) delete disturbance;
}
}
namespace s2e::dynamics::ref {
//= s2e::dynamics::Dynamics::~Dynamics
void Dynamics_Dtor(Dynamics* self) {
  delete self->attitude_;
  delete self->orbit_;
  delete self->temperature_;
}
}
namespace s2e::logger::ref {
//= s2e::logger::Logger::~Logger
void Logger_Dtor(Logger* self) {
  if (self->is_file_opened_) self->csv_file_.close();
}
}
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Structure::~Structure
void Structure_Dtor(Structure* self) {
  delete self->kinematics_parameters_;
  delete self->residual_magnetic_moment_;
}
//= s2e::spacecraft::Spacecraft::~Spacecraft
void Spacecraft_Dtor(Spacecraft* self) {
  if (self->relative_information_ != nullptr) self->relative_information_->RemoveDynamicsInfo(self->spacecraft_id_);
  delete self->structure_;
  delete self->dynamics_;
  delete self->local_environment_;
  delete self->disturbances_;
  delete self->components_;
}
}
namespace s2e::simulation::ref {
//= s2e::simulation::SimulationObject::~SimulationObject
void SimulationObject_Dtor(SimulationObject* self) { SimulationObject::object_list_.erase(self->name_); }
//= s2e::simulation::SimulationConfiguration::~SimulationConfiguration
void Configuration_Dtor(SimulationConfiguration* self) { delete self->main_logger_; }
//= s2e::simulation::SimulationCase::~SimulationCase
void Case_Dtor(SimulationCase* self) { delete self->global_environment_; }
//= s2e::simulation::MonteCarloSimulationExecutor::~MonteCarloSimulationExecutor
void Executor_Dtor(MonteCarloSimulationExecutor* self) {
  for (auto& p : self->init_parameter_list_) delete p.second;
}
}
namespace s2e::sample::ref {
//= s2e::sample::SampleCase::~SampleCase
void SampleCase_Dtor(SampleCase* self) {
  delete self->sample_spacecraft_;
  delete self->sample_ground_station_;
}
//= s2e::sample::SampleGroundStation::~SampleGroundStation
void SampleGs_Dtor(SampleGroundStation* self) { delete self->components_; }
//= s2e::sample::SampleGsComponents::~SampleGsComponents
void SampleGsComponents_Dtor(SampleGsComponents* self) {
  delete self->antenna_;
  delete self->gs_calculator_;
}
}
