// Reference specification for C05: component clocking and power gating (parsed, never compiled to code or run).
#include <cfloat>
#include "components/base/component.hpp"
#include "components/ports/power_port.hpp"
#include "environment/global/clock_generator.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
namespace ref {
using namespace s2e::components;
using namespace s2e::environment;

//= s2e::environment::ClockGenerator::RegisterComponent
void RegisterComponent(ClockGenerator* self, ITickable* t) { self->components_.push_back(t); }

//= s2e::environment::ClockGenerator::TickToComponents
void TickToComponents(ClockGenerator* self) {
  for (ITickable* c : self->components_) {
    c->Tick(self->timer_count_);
    if (c->GetNeedsFastUpdate()) c->FastTick(self->timer_count_);
  }
  self->timer_count_ += 1;
}

//= s2e::environment::ClockGenerator::UpdateComponents
void UpdateComponents(ClockGenerator* self, const SimulationTime* time) {
  if (!time->GetCompoUpdateFlag()) return;
  TickToComponents(self);
}

//= s2e::environment::ClockGenerator::ClearTimerCount
void ClearTimerCount(ClockGenerator* self) { self->timer_count_ = 0; }

//= s2e::components::Component::Tick
void Tick(Component* self, const unsigned int count) {
  if (count % self->prescaler_ == 0) {
    if (self->power_port_->is_on_)
      self->MainRoutine(count);
    else
      self->PowerOffRoutine();
  }
}

//= s2e::components::Component::FastTick
void FastTick(Component* self, const unsigned int count) {
  if (count % self->fast_prescaler_ == 0) {
    if (self->power_port_->is_on_)
      self->FastUpdate();
    else
      self->PowerOffRoutine();
  }
}

//= s2e::components::Component::Component(constunsignedint,s2e::environment::ClockGenerator*,constunsignedint) leaves=s2e::environment::ClockGenerator::RegisterComponent
void Construct(Component* self, const unsigned int prescaler, ClockGenerator* clock, const unsigned int fast) {
  self->clock_generator_ = clock;
  self->power_port_ = new PowerPort();
  clock->RegisterComponent(self);
  self->prescaler_ = prescaler > 0 ? prescaler : 1;
  self->fast_prescaler_ = fast > 0 ? fast : 1;
}

//= s2e::components::Component::Component(constunsignedint,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constunsignedint) leaves=s2e::environment::ClockGenerator::RegisterComponent
void ConstructWithPort(Component* self, const unsigned int prescaler, ClockGenerator* clock, PowerPort* port, const unsigned int fast) {
  self->clock_generator_ = clock;
  self->power_port_ = port;
  clock->RegisterComponent(self);
  self->prescaler_ = prescaler > 0 ? prescaler : 1;
  self->fast_prescaler_ = fast > 0 ? fast : 1;
}

//= s2e::components::PowerPort::PowerPort()
void PortDefault(PowerPort* self) {
  const_cast<int&>(self->kPortId) = -1;
  self->current_limit_A_ = 10.0;
  self->minimum_voltage_V_ = 3.3;
  self->assumed_power_consumption_W_ = 0.0;
  self->is_on_ = true;
  self->voltage_V_ = 0.0;
  self->current_consumption_A_ = 0.0;
}

//= s2e::components::PowerPort::PowerPort(constint,constdouble)
void Port2(PowerPort* self, const int id, const double limit) {
  const_cast<int&>(self->kPortId) = id;
  self->current_limit_A_ = limit;
  self->minimum_voltage_V_ = 3.3;
  self->assumed_power_consumption_W_ = 0.0;
  self->is_on_ = false;
  self->voltage_V_ = 0.0;
  self->current_consumption_A_ = 0.0;
}

//= s2e::components::PowerPort::PowerPort(constint,constdouble,constdouble,constdouble)
void Port4(PowerPort* self, const int id, const double limit, const double min_voltage, const double power) {
  const_cast<int&>(self->kPortId) = id;
  self->current_limit_A_ = limit;
  self->minimum_voltage_V_ = min_voltage;
  self->assumed_power_consumption_W_ = power;
  self->is_on_ = false;
  self->voltage_V_ = 0.0;
  self->current_consumption_A_ = 0.0;
}

//= s2e::components::PowerPort::Update
bool PortUpdate(PowerPort* self) {
  const bool supplied = self->voltage_V_ >= self->minimum_voltage_V_ - DBL_EPSILON;
  const double current = supplied ? self->assumed_power_consumption_W_ / self->voltage_V_ : 0.0;
  const bool over = current >= self->current_limit_A_ - DBL_EPSILON;
  self->is_on_ = supplied && !over;
  self->current_consumption_A_ = over ? 0.0 : current;
  self->voltage_V_ = over ? 0.0 : self->voltage_V_;
  return self->is_on_;
}

//= s2e::components::PowerPort::SetVoltage_V
bool SetVoltage(PowerPort* self, const double v) {
  self->voltage_V_ = v;
  return PortUpdate(self);
}

//= s2e::components::PowerPort::GetIsOn
bool GetIsOn(PowerPort* self) { return self->is_on_; }
//= s2e::components::PowerPort::GetVoltage_V
double GetVoltage(PowerPort* self) { return self->voltage_V_; }
//= s2e::components::PowerPort::GetCurrentConsumption_A
double GetCurrent(PowerPort* self) { return self->current_consumption_A_; }
//= s2e::components::PowerPort::GetAssumedPowerConsumption_W
double GetPower(PowerPort* self) { return self->assumed_power_consumption_W_; }
//= s2e::components::PowerPort::SetAssumedPowerConsumption_W
void SetPower(PowerPort* self, const double p) { self->assumed_power_consumption_W_ = p; }
//= s2e::components::PowerPort::SetMinimumVoltage_V
void SetMin(PowerPort* self, const double p) { self->minimum_voltage_V_ = p; }
//= s2e::components::PowerPort::SetCurrentLimit_A
void SetLimit(PowerPort* self, const double p) { self->current_limit_A_ = p; }
//= s2e::components::PowerPort::AddAssumedPowerConsumption_W
void AddPower(PowerPort* self, const double p) { self->assumed_power_consumption_W_ = self->assumed_power_consumption_W_ + p; }
//= s2e::components::PowerPort::SubtractAssumedPowerConsumption_W
void SubPower(PowerPort* self, const double p) {
  const double rest = self->assumed_power_consumption_W_ - p;
  self->assumed_power_consumption_W_ = rest < 0.0 ? 0.0 : rest;
}
//= s2e::components::PowerPort::InitializeWithInitializeFile
void InitPort(PowerPort* self, const std::string file) {
  s2e::setting_file_reader::IniAccess ini(file);
  self->minimum_voltage_V_ = ini.ReadDouble("POWER_PORT", "minimum_voltage_V");
  self->assumed_power_consumption_W_ = ini.ReadDouble("POWER_PORT", "assumed_power_consumption_W");
}
//= s2e::components::PowerPort::Initialize
void InitState(PowerPort* self) {
  self->current_consumption_A_ = 0.0;
  self->voltage_V_ = 0.0;
}
//= s2e::components::ITickable::GetNeedsFastUpdate
bool NeedsFast(ITickable* self) { return self->needs_fast_update_; }
//= s2e::components::ITickable::SetNeedsFastUpdate
void SetNeedsFast(ITickable* self, const bool need) { self->needs_fast_update_ = need; }
//= s2e::components::Component::FastUpdate
void Fast(Component* self) {}
//= s2e::components::Component::PowerOffRoutine
void Off(Component* self) {}
}  // namespace ref
