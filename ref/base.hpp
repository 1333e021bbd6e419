// Base-class constructions used by several reference specifications.
#pragma once
#include "components/base/component.hpp"
#include "components/base/sensor.hpp"
#include "disturbances/disturbance.hpp"
#include "dynamics/attitude/attitude.hpp"
#include "dynamics/orbit/orbit.hpp"
#include "math_physics/math/ordinary_differential_equation.hpp"
#include "simulation/monte_carlo_simulation/simulation_object.hpp"
#define MUT(x) const_cast<std::remove_const_t<std::remove_reference_t<decltype(x)>>&>(x)
namespace s2e {
inline void SimulationObject_Ctor(simulation::SimulationObject* self, const std::string name) {
  self->name_ = name;
  if (simulation::SimulationObject::object_list_.find(name) == simulation::SimulationObject::object_list_.end())
    simulation::SimulationObject::object_list_[name] = self;
  else
    throw "";
}
inline void Component_Ctor(components::Component* self, const unsigned int prescaler, environment::ClockGenerator* clock, const unsigned int fast = 1) {
  self->clock_generator_ = clock;
  self->power_port_ = new components::PowerPort();
  clock->RegisterComponent(self);
  self->prescaler_ = prescaler > 0 ? prescaler : 1;
  self->fast_prescaler_ = fast > 0 ? fast : 1;
}
inline void Component_Ctor(components::Component* self, const unsigned int prescaler, environment::ClockGenerator* clock, components::PowerPort* port, const unsigned int fast = 1) {
  self->clock_generator_ = clock;
  self->power_port_ = port;
  clock->RegisterComponent(self);
  self->prescaler_ = prescaler > 0 ? prescaler : 1;
  self->fast_prescaler_ = fast > 0 ? fast : 1;
}
inline void Component_Ctor(components::Component* self, const components::Component& other) {
  self->clock_generator_ = other.clock_generator_;
  self->power_port_ = other.power_port_;
  self->prescaler_ = other.prescaler_;
  self->fast_prescaler_ = other.fast_prescaler_;
  self->needs_fast_update_ = other.needs_fast_update_;
  other.clock_generator_->RegisterComponent(self);
}
inline void Disturbance_Ctor(disturbances::Disturbance* self, const bool enabled, const bool attitude) {
  self->is_calculation_enabled_ = enabled;
  self->is_attitude_dependent_ = attitude;
  self->force_b_N_ = math::Vector<3>(0.0);
  self->torque_b_Nm_ = math::Vector<3>(0.0);
  self->acceleration_b_m_s2_ = math::Vector<3>(0.0);
  self->acceleration_i_m_s2_ = math::Vector<3>(0.0);
}
inline void Orbit_Ctor(dynamics::orbit::Orbit* self, const environment::CelestialInformation* ci) {
  self->is_calc_enabled_ = false;
  self->celestial_information_ = ci;
}
template <size_t N>
void OrdinaryDifferentialEquation_Ctor(math::OrdinaryDifferentialEquation<N>* self, double step) {
  self->independent_variable_ = 0.0;
  self->state_ = math::Vector<N>(0.0);
  self->derivative_ = math::Vector<N>(0.0);
  self->step_width_s_ = step;
}
inline void Attitude_Ctor(dynamics::attitude::Attitude* self, const math::Matrix<3, 3>& inertia_tensor_kgm2, const std::string& name) {
  SimulationObject_Ctor(self, name);
  self->is_calc_enabled_ = true;
  MUT(self->inertia_tensor_kgm2_) = inertia_tensor_kgm2;
  self->angular_velocity_b_rad_s_ = math::Vector<3>(0.0);
  self->quaternion_i2b_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
  self->torque_b_Nm_ = math::Vector<3>(0.0);
  self->angular_momentum_spacecraft_b_Nms_ = math::Vector<3>(0.0);
  self->angular_momentum_reaction_wheel_b_Nms_ = math::Vector<3>(0.0);
  self->angular_momentum_total_b_Nms_ = math::Vector<3>(0.0);
  self->angular_momentum_total_i_Nms_ = math::Vector<3>(0.0);
  self->angular_momentum_total_Nms_ = 0.0;
  self->kinetic_energy_J_ = 0.0;
}
}  // namespace s2e
