// Reference specification for C29 (parsed, never compiled to code or run).
#include "base.hpp"
#include <cmath>
#include "components/real/power/battery.hpp"
#include "components/real/power/csv_scenario_interface.hpp"
#include "components/real/power/pcu_initial_study.hpp"
#include "components/real/power/power_control_unit.hpp"
#include "components/real/power/solar_array_panel.hpp"
#include "environment/global/clock_generator.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
// ---------------------------------------------------------------- components/real/power/battery.cpp
namespace s2e::components::ref {
//= s2e::components::Battery::Battery(constint,s2e::environment::ClockGenerator*,int,int,double,conststd::vector<double,std::allocator<double>>,double,double,double,double,double)
void Battery_Ctor(Battery* self, const int prescaler, environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah, const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V, double battery_resistance_Ohm, double component_step_time_s) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<int&>(self->number_of_series_) = number_of_series;
  const_cast<int&>(self->number_of_parallel_) = number_of_parallel;
  const_cast<double&>(self->cell_capacity_Ah_) = cell_capacity_Ah;
  const_cast<std::vector<double>&>(self->cell_discharge_curve_coefficients_) = cell_discharge_curve_coefficients;
  const_cast<double&>(self->cc_charge_current_C_) = cc_charge_c_rate * cell_capacity_Ah * number_of_parallel;
  const_cast<double&>(self->cv_charge_voltage_V_) = cv_charge_voltage_V;
  self->depth_of_discharge_percent_ = initial_dod;
  self->battery_resistance_Ohm_ = battery_resistance_Ohm;
  self->compo_step_time_s_ = component_step_time_s;
}
//= s2e::components::Battery::Battery(s2e::environment::ClockGenerator*,int,int,double,conststd::vector<double,std::allocator<double>>,double,double,double,double)
void Battery_Ctor2(Battery* self, environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah, const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V, double battery_resistance_Ohm) {
  Component_Ctor(self, 10, clock_generator);
  const_cast<int&>(self->number_of_series_) = number_of_series;
  const_cast<int&>(self->number_of_parallel_) = number_of_parallel;
  const_cast<double&>(self->cell_capacity_Ah_) = cell_capacity_Ah;
  const_cast<std::vector<double>&>(self->cell_discharge_curve_coefficients_) = cell_discharge_curve_coefficients;
  const_cast<double&>(self->cc_charge_current_C_) = cc_charge_c_rate * cell_capacity_Ah * number_of_parallel;
  const_cast<double&>(self->cv_charge_voltage_V_) = cv_charge_voltage_V;
  self->depth_of_discharge_percent_ = initial_dod;
  self->battery_resistance_Ohm_ = battery_resistance_Ohm;
  self->compo_step_time_s_ = 0.1;
}
//= s2e::components::Battery::Battery(consts2e::components::Battery&)
void Battery_Ctor3(Battery* self, const Battery& obj) {
  Component_Ctor(self, obj);
  const_cast<int&>(self->number_of_series_) = obj.number_of_series_;
  const_cast<int&>(self->number_of_parallel_) = obj.number_of_parallel_;
  const_cast<double&>(self->cell_capacity_Ah_) = obj.cell_capacity_Ah_;
  const_cast<std::vector<double>&>(self->cell_discharge_curve_coefficients_) = obj.cell_discharge_curve_coefficients_;
  const_cast<double&>(self->cc_charge_current_C_) = obj.cc_charge_current_C_;
  const_cast<double&>(self->cv_charge_voltage_V_) = obj.cv_charge_voltage_V_;
  self->depth_of_discharge_percent_ = obj.depth_of_discharge_percent_;
  self->battery_resistance_Ohm_ = obj.battery_resistance_Ohm_;
  self->compo_step_time_s_ = obj.compo_step_time_s_;

  self->charge_current_A_ = 0.0;
  self->UpdateBatVoltage();
}
//= s2e::components::Battery::MainRoutine
void Battery_MainRoutine(Battery* self, const int time_count) {
  UNUSED(time_count);

  double delta_time_query = self->compo_step_time_s_ * self->prescaler_;
  self->depth_of_discharge_percent_ -= self->charge_current_A_ * delta_time_query / 3600.0 / (self->cell_capacity_Ah_ * self->number_of_parallel_) * 100.0;
  self->UpdateBatVoltage();
}
//= s2e::components::Battery::UpdateBatVoltage
void Battery_UpdateBatVoltage(Battery* self) {
  double cell_discharge_capacity = self->depth_of_discharge_percent_ / 100.0 * self->cell_capacity_Ah_;
  double temp = 0.0;
  int index = 0;
  for (auto coeff : self->cell_discharge_curve_coefficients_) {
    temp += coeff * std::pow(cell_discharge_capacity, index);
    ++index;
  }
  self->battery_voltage_V_ = temp * self->number_of_series_;
}
//= s2e::components::InitBAT
Battery _InitBAT(environment::ClockGenerator* clock_generator, int bat_id, const std::string file_name, double component_step_time_s) {
  setting_file_reader::IniAccess bat_conf(file_name);

  const std::string section_name = "BATTERY_" + std::to_string(static_cast<long long>(bat_id));

  int prescaler = bat_conf.ReadInt(section_name.c_str(), "prescaler");
  if (prescaler <= 1) prescaler = 1;

  int number_of_series;
  number_of_series = bat_conf.ReadInt(section_name.c_str(), "number_of_series");

  int number_of_parallel;
  number_of_parallel = bat_conf.ReadInt(section_name.c_str(), "number_of_parallel");

  double cell_capacity_Ah;
  cell_capacity_Ah = bat_conf.ReadDouble(section_name.c_str(), "cell_capacity_Ah");

  int approx_order;
  approx_order = bat_conf.ReadInt(section_name.c_str(), "approximation_order");

  std::vector<double> cell_discharge_curve_coefficients;
  for (int i = 0; i <= approx_order; ++i) {
    cell_discharge_curve_coefficients.push_back(
        bat_conf.ReadDouble(section_name.c_str(), ("cell_discharge_curve_coefficients(" + std::to_string(i) + ")").c_str()));
  }

  double initial_dod;
  initial_dod = bat_conf.ReadDouble(section_name.c_str(), "initial_dod");

  double cc_charge_c_rate;
  cc_charge_c_rate = bat_conf.ReadDouble(section_name.c_str(), "constant_charge_current_rate_C");

  double cv_charge_voltage_V;
  cv_charge_voltage_V = bat_conf.ReadDouble(section_name.c_str(), "constant_voltage_charge_voltage_V");

  double battery_resistance_Ohm;
  battery_resistance_Ohm = bat_conf.ReadDouble(section_name.c_str(), "battery_resistance_Ohm");

  Battery battery(prescaler, clock_generator, number_of_series, number_of_parallel, cell_capacity_Ah, cell_discharge_curve_coefficients, initial_dod,
                  cc_charge_c_rate, cv_charge_voltage_V, battery_resistance_Ohm, component_step_time_s);

  return battery;
}
}

// ---------------------------------------------------------------- components/real/power/csv_scenario_interface.cpp
namespace s2e::components::ref {
//= s2e::components::CsvScenarioInterface::Initialize
void CsvScenarioInterface_Initialize(const std::string file_name) {
  setting_file_reader::IniAccess scenario_conf(file_name);
  char Section[30] = "SCENARIO";

  CsvScenarioInterface::is_csv_scenario_enabled_ = scenario_conf.ReadBoolean(Section, "is_csv_scenario_enabled");

  std::string csv_path;
  csv_path = scenario_conf.ReadString(Section, "csv_path");

  CsvScenarioInterface::buffer_line_id_["sun_dir_b_x"] = 1;
  CsvScenarioInterface::buffer_line_id_["sun_dir_b_y"] = 2;
  CsvScenarioInterface::buffer_line_id_["sun_dir_b_z"] = 3;
  CsvScenarioInterface::buffer_line_id_["sun_flag"] = 4;
  CsvScenarioInterface::buffer_line_id_["power_consumption"] = 5;

  std::vector<std::vector<double>> data;
  data = CsvScenarioInterface::ReadCsvData(csv_path, 1);

  for (auto itr = CsvScenarioInterface::buffer_line_id_.begin(); itr != CsvScenarioInterface::buffer_line_id_.end(); itr++) {
    CsvScenarioInterface::StoreBuffer(itr->first, data);
  }
}
//= s2e::components::CsvScenarioInterface::IsCsvScenarioEnabled
bool CsvScenarioInterface_IsCsvScenarioEnabled() { return CsvScenarioInterface::is_csv_scenario_enabled_; }
//= s2e::components::CsvScenarioInterface::GetSunDirectionBody
math::Vector<3> CsvScenarioInterface_GetSunDirectionBody(const double time_query) {
  math::Vector<3> sun_dir_b;
  sun_dir_b[0] = CsvScenarioInterface::GetValueFromBuffer("sun_dir_b_x", time_query);
  sun_dir_b[1] = CsvScenarioInterface::GetValueFromBuffer("sun_dir_b_y", time_query);
  sun_dir_b[2] = CsvScenarioInterface::GetValueFromBuffer("sun_dir_b_z", time_query);
  return sun_dir_b;
}
//= s2e::components::CsvScenarioInterface::GetSunFlag
bool CsvScenarioInterface_GetSunFlag(const double time_query) { return (bool)CsvScenarioInterface::GetValueFromBuffer("sun_flag", time_query); }
//= s2e::components::CsvScenarioInterface::GetPowerConsumption
double CsvScenarioInterface_GetPowerConsumption(const double time_query) { return CsvScenarioInterface::GetValueFromBuffer("power_consumption", time_query); }
//= s2e::components::CsvScenarioInterface::ReadCsvData
std::vector<std::vector<double>> CsvScenarioInterface_ReadCsvData(const std::string filename, const std::size_t ignore_line_num) {
  std::ifstream file;
  file.open(filename, std::ios::in);
  if (!file) throw std::invalid_argument(filename + std::string(" cannot be opened."));

  std::string reading_line_buffer;
  for (std::size_t line = 0; line < ignore_line_num; line++) {
    getline(file, reading_line_buffer);
    if (file.eof()) break;
  }

  double num;
  char comma;
  std::vector<std::vector<double>> data;

  while (std::getline(file, reading_line_buffer)) {
    if (reading_line_buffer.size() == 0) break;
    std::vector<double> temp_data;
    std::istringstream is(reading_line_buffer);
    while (is >> num) {
      temp_data.push_back(num);
      is >> comma;
    }
    data.push_back(temp_data);
  }

  return data;
}
//= s2e::components::CsvScenarioInterface::StoreBuffer
void CsvScenarioInterface_StoreBuffer(const std::string buffer_name, const std::vector<std::vector<double>>& data) {
  auto line_num = CsvScenarioInterface::buffer_line_id_.at(buffer_name);
  for (const auto& line : data) {
    CsvScenarioInterface::buffers_[buffer_name][line[0]] = line[line_num];
  }
}
//= s2e::components::CsvScenarioInterface::GetValueFromBuffer
double CsvScenarioInterface_GetValueFromBuffer(const std::string buffer_name, const double time_query) {
  double output;
  auto itr = CsvScenarioInterface::buffers_.at(buffer_name).upper_bound(time_query);
  if (itr == CsvScenarioInterface::buffers_.at(buffer_name).begin()) return 0;
  itr--;
  output = itr->second;
  return output;
}
}

// ---------------------------------------------------------------- components/real/power/pcu_initial_study.cpp
namespace s2e::components::ref {
//= s2e::components::PcuInitialStudy::PcuInitialStudy(constint,s2e::environment::ClockGenerator*,conststd::vector<s2e::components::SolarArrayPanel*,std::allocator<s2e::components::SolarArrayPanel*>>,s2e::components::Battery*,double)
void PcuInitialStudy_Ctor(PcuInitialStudy* self, const int prescaler, environment::ClockGenerator* clock_generator, const std::vector<SolarArrayPanel*> saps, Battery* battery, double component_step_time_s) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<std::vector<SolarArrayPanel *>&>(self->saps_) = saps;
  const_cast<Battery *&>(self->battery_) = battery;
  const_cast<double&>(self->cc_charge_current_C_) = battery->GetCcChargeCurrent_C();
  const_cast<double&>(self->cv_charge_voltage_V_) = battery->GetCvChargeVoltage_V();
  self->compo_step_time_s_ = component_step_time_s;

  self->bus_voltage_V_ = 0.0;
  self->power_consumption_W_ = 0.0;
}
//= s2e::components::PcuInitialStudy::PcuInitialStudy(s2e::environment::ClockGenerator*,conststd::vector<s2e::components::SolarArrayPanel*,std::allocator<s2e::components::SolarArrayPanel*>>,s2e::components::Battery*)
void PcuInitialStudy_Ctor2(PcuInitialStudy* self, environment::ClockGenerator* clock_generator, const std::vector<SolarArrayPanel*> saps, Battery* battery) {
  Component_Ctor(self, 10, clock_generator);
  const_cast<std::vector<SolarArrayPanel *>&>(self->saps_) = saps;
  const_cast<Battery *&>(self->battery_) = battery;
  const_cast<double&>(self->cc_charge_current_C_) = battery->GetCcChargeCurrent_C();
  const_cast<double&>(self->cv_charge_voltage_V_) = battery->GetCvChargeVoltage_V();
  self->compo_step_time_s_ = 0.1;

  self->bus_voltage_V_ = 0.0;
  self->power_consumption_W_ = 0.0;
}
//= s2e::components::PcuInitialStudy::MainRoutine
void PcuInitialStudy_MainRoutine(PcuInitialStudy* self, int time_count) {
  double time_query = self->compo_step_time_s_ * time_count;
  self->power_consumption_W_ = self->CalcPowerConsumption(time_query);  // Should use SimulationTime? time_count may over flow since it is int type,

  self->UpdateChargeCurrentAndBusVoltage();
  for (auto sap : self->saps_) {
    sap->SetVoltage_V(16.0);  // Assume MPPT control
  }
}
//= s2e::components::PcuInitialStudy::CalcPowerConsumption
double PcuInitialStudy_CalcPowerConsumption(PcuInitialStudy* self, double time_query) {
  if (CsvScenarioInterface::IsCsvScenarioEnabled()) {
    return CsvScenarioInterface::GetPowerConsumption(time_query);
  } else {
    // Examples
    //  if (time_in_sec % 3600 < 600) {
    //    return 10.0;
    //  } else if (time_in_sec % 3600 < 2000) {
    //    return 5.0;
    //  } else if (time_in_sec % 3600 < 2500) {
    //    return 20.0;
    //  } else {
    //    return 5.0;
    //  }
    return 5.0;
  }
}
//= s2e::components::PcuInitialStudy::UpdateChargeCurrentAndBusVoltage
void PcuInitialStudy_UpdateChargeCurrentAndBusVoltage(PcuInitialStudy* self) {
  const double cc_charge_current_C = self->battery_->GetCcChargeCurrent_C();
  const double cv_charge_voltage_V = self->battery_->GetCvChargeVoltage_V();
  const double battery_resistance_Ohm = self->battery_->GetResistance_Ohm();

  const double bat_voltage = self->battery_->GetVoltage_V();
  double power_generation = 0.0;
  for (auto sap : self->saps_) {
    power_generation += sap->GetPowerGeneration_W();
  }
  const double current_temp =
      (-bat_voltage + std::sqrt(bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - self->power_consumption_W_))) /
      (2.0 * battery_resistance_Ohm);
  if (current_temp >= cc_charge_current_C) {
    if (bat_voltage + cc_charge_current_C * battery_resistance_Ohm < cv_charge_voltage_V) {
      // CC Charge
      self->battery_->SetChargeCurrent(cc_charge_current_C);
      self->bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * cc_charge_current_C;
    } else {
      // CV Charge
      self->battery_->SetChargeCurrent((cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm);
      self->bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * (cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm;
    }
  } else {
    if (bat_voltage + current_temp * battery_resistance_Ohm < cv_charge_voltage_V) {
      // Natural charge or discharge
      self->battery_->SetChargeCurrent(current_temp);
      self->bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * current_temp;
    } else {
      // CV Charge
      self->battery_->SetChargeCurrent((cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm);
      self->bus_voltage_V_ = bat_voltage + battery_resistance_Ohm * (cv_charge_voltage_V - bat_voltage) / battery_resistance_Ohm;
    }
  }
}
//= s2e::components::InitPCU_InitialStudy
PcuInitialStudy _InitPCU_InitialStudy(environment::ClockGenerator* clock_generator, int pcu_id, const std::string file_name, const std::vector<SolarArrayPanel*> saps, Battery* battery, double component_step_time_s) {
  setting_file_reader::IniAccess pcu_conf(file_name);

  const std::string section_name = "PCU_INITIAL_STUDY_" + std::to_string(static_cast<long long>(pcu_id));

  int prescaler = pcu_conf.ReadInt(section_name.c_str(), "prescaler");
  if (prescaler <= 1) prescaler = 1;

  PcuInitialStudy pcu(prescaler, clock_generator, saps, battery, component_step_time_s);

  return pcu;
}
}

// ---------------------------------------------------------------- components/real/power/power_control_unit.cpp
namespace s2e::components::ref {
//= s2e::components::PowerControlUnit::PowerControlUnit(s2e::environment::ClockGenerator*)
void PowerControlUnit_Ctor(PowerControlUnit* self, environment::ClockGenerator* clock_generator) {
  Component_Ctor(self, 1, clock_generator);
}
//= s2e::components::PowerControlUnit::PowerControlUnit(int,s2e::environment::ClockGenerator*)
void PowerControlUnit_Ctor2(PowerControlUnit* self, int prescaler, environment::ClockGenerator* clock_generator) {
  Component_Ctor(self, prescaler, clock_generator);
}
//= s2e::components::PowerControlUnit::MainRoutine
void PowerControlUnit_MainRoutine(PowerControlUnit* self, const int time_count) {
  UNUSED(time_count);

  // double current_ = power_ports_[1]->GetCurrentConsumption_A();
}
//= s2e::components::PowerControlUnit::ConnectPort(constint,constdouble)
int PowerControlUnit_ConnectPort(PowerControlUnit* self, const int port_id, const double current_limit_A) {
  // The port is already used
  if (self->power_ports_[port_id] != nullptr) return -1;

  self->power_ports_[port_id] = new PowerPort(port_id, current_limit_A);
  return 0;
}
//= s2e::components::PowerControlUnit::ConnectPort(constint,constdouble,constdouble,constdouble)
int PowerControlUnit_ConnectPort2(PowerControlUnit* self, const int port_id, const double current_limit_A, const double minimum_voltage_V, const double assumed_power_consumption_W) {
  // The port is already used
  if (self->power_ports_[port_id] != nullptr) return -1;

  self->power_ports_[port_id] = new PowerPort(port_id, current_limit_A, minimum_voltage_V, assumed_power_consumption_W);
  return 0;
}
//= s2e::components::PowerControlUnit::ClosePort
int PowerControlUnit_ClosePort(PowerControlUnit* self, const int port_id) {
  // The port not used
  if (self->power_ports_[port_id] == nullptr) return -1;

  PowerPort* port = self->power_ports_.at(port_id);
  delete port;
  self->power_ports_.erase(port_id);
  return 0;
}
}

// ---------------------------------------------------------------- components/real/power/solar_array_panel.cpp
namespace s2e::components::ref {
//= s2e::components::SolarArrayPanel::SolarArrayPanel(constint,s2e::environment::ClockGenerator*,int,int,int,double,s2e::math::Vector<3,double>,double,double,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*,double)
void SolarArrayPanel_Ctor(SolarArrayPanel* self, const int prescaler, environment::ClockGenerator* clock_generator, int component_id, int number_of_series, int number_of_parallel, double cell_area_m2, math::Vector<3> normal_vector, double cell_efficiency, double transmission_efficiency, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information, double component_step_time_s) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<int&>(self->component_id_) = component_id;
  const_cast<int&>(self->number_of_series_) = number_of_series;
  const_cast<int&>(self->number_of_parallel_) = number_of_parallel;
  const_cast<double&>(self->cell_area_m2_) = cell_area_m2;
  const_cast<math::Vector<3>&>(self->normal_vector_) = normal_vector.CalcNormalizedVector();
  const_cast<double&>(self->cell_efficiency_) = cell_efficiency;
  const_cast<double&>(self->transmission_efficiency_) = transmission_efficiency;
  const_cast<const environment::SolarRadiationPressureEnvironment *&>(self->srp_environment_) = srp_environment;
  self->local_celestial_information_ = local_celestial_information;
  self->compo_step_time_s_ = component_step_time_s;

  self->voltage_V_ = 0.0;
  self->power_generation_W_ = 0.0;
}
//= s2e::components::SolarArrayPanel::SolarArrayPanel(constint,s2e::environment::ClockGenerator*,int,int,int,double,s2e::math::Vector<3,double>,double,double,consts2e::environment::SolarRadiationPressureEnvironment*,double)
void SolarArrayPanel_Ctor2(SolarArrayPanel* self, const int prescaler, environment::ClockGenerator* clock_generator, int component_id, int number_of_series, int number_of_parallel, double cell_area_m2, math::Vector<3> normal_vector, double cell_efficiency, double transmission_efficiency, const environment::SolarRadiationPressureEnvironment* srp_environment, double component_step_time_s) {
  Component_Ctor(self, prescaler, clock_generator);
  const_cast<int&>(self->component_id_) = component_id;
  const_cast<int&>(self->number_of_series_) = number_of_series;
  const_cast<int&>(self->number_of_parallel_) = number_of_parallel;
  const_cast<double&>(self->cell_area_m2_) = cell_area_m2;
  const_cast<math::Vector<3>&>(self->normal_vector_) = normal_vector.CalcNormalizedVector();
  const_cast<double&>(self->cell_efficiency_) = cell_efficiency;
  const_cast<double&>(self->transmission_efficiency_) = transmission_efficiency;
  const_cast<const environment::SolarRadiationPressureEnvironment *&>(self->srp_environment_) = srp_environment;
  self->compo_step_time_s_ = component_step_time_s;

  self->voltage_V_ = 0.0;
  self->power_generation_W_ = 0.0;
}
//= s2e::components::SolarArrayPanel::SolarArrayPanel(s2e::environment::ClockGenerator*,int,int,int,double,s2e::math::Vector<3,double>,double,double,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*)
void SolarArrayPanel_Ctor3(SolarArrayPanel* self, environment::ClockGenerator* clock_generator, int component_id, int number_of_series, int number_of_parallel, double cell_area_m2, math::Vector<3> normal_vector, double cell_efficiency, double transmission_efficiency, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information) {
  Component_Ctor(self, 10, clock_generator);
  const_cast<int&>(self->component_id_) = component_id;
  const_cast<int&>(self->number_of_series_) = number_of_series;
  const_cast<int&>(self->number_of_parallel_) = number_of_parallel;
  const_cast<double&>(self->cell_area_m2_) = cell_area_m2;
  const_cast<math::Vector<3>&>(self->normal_vector_) = normal_vector.CalcNormalizedVector();
  const_cast<double&>(self->cell_efficiency_) = cell_efficiency;
  const_cast<double&>(self->transmission_efficiency_) = transmission_efficiency;
  const_cast<const environment::SolarRadiationPressureEnvironment *&>(self->srp_environment_) = srp_environment;
  self->local_celestial_information_ = local_celestial_information;
  self->compo_step_time_s_ = 0.1;

  self->voltage_V_ = 0.0;
  self->power_generation_W_ = 0.0;
}
//= s2e::components::SolarArrayPanel::SolarArrayPanel(consts2e::components::SolarArrayPanel&)
void SolarArrayPanel_Ctor4(SolarArrayPanel* self, const SolarArrayPanel& obj) {
  Component_Ctor(self, obj);
  const_cast<int&>(self->component_id_) = obj.component_id_;
  const_cast<int&>(self->number_of_series_) = obj.number_of_series_;
  const_cast<int&>(self->number_of_parallel_) = obj.number_of_parallel_;
  const_cast<double&>(self->cell_area_m2_) = obj.cell_area_m2_;
  const_cast<math::Vector<3>&>(self->normal_vector_) = obj.normal_vector_;
  const_cast<double&>(self->cell_efficiency_) = obj.cell_efficiency_;
  const_cast<double&>(self->transmission_efficiency_) = obj.transmission_efficiency_;
  const_cast<const environment::SolarRadiationPressureEnvironment *&>(self->srp_environment_) = obj.srp_environment_;
  self->local_celestial_information_ = obj.local_celestial_information_;
  self->compo_step_time_s_ = obj.compo_step_time_s_;

  self->voltage_V_ = 0.0;
  self->power_generation_W_ = 0.0;
}
//= s2e::components::SolarArrayPanel::MainRoutine
void SolarArrayPanel_MainRoutine(SolarArrayPanel* self, const int time_count) {
  if (CsvScenarioInterface::IsCsvScenarioEnabled()) {
    double time_query = self->compo_step_time_s_ * time_count;
    const auto solar_constant = self->srp_environment_->GetSolarConstant_W_m2();
    math::Vector<3> sun_direction_body = CsvScenarioInterface::GetSunDirectionBody(time_query);
    math::Vector<3> normalized_sun_direction_body = sun_direction_body.CalcNormalizedVector();
    self->power_generation_W_ = self->cell_efficiency_ * self->transmission_efficiency_ * solar_constant * (int)CsvScenarioInterface::GetSunFlag(time_query) *
                          self->cell_area_m2_ * self->number_of_parallel_ * self->number_of_series_ * InnerProduct(self->normal_vector_, normalized_sun_direction_body);
  } else {
    const auto power_density = self->srp_environment_->GetPowerDensity_W_m2();
    math::Vector<3> sun_pos_b = self->local_celestial_information_->GetPositionFromSpacecraft_b_m("SUN");
    math::Vector<3> sun_dir_b = sun_pos_b.CalcNormalizedVector();
    self->power_generation_W_ = self->cell_efficiency_ * self->transmission_efficiency_ * power_density * self->cell_area_m2_ * self->number_of_parallel_ * self->number_of_series_ *
                          InnerProduct(self->normal_vector_, sun_dir_b);
    // TODO: Improve implementation. For example, update IV curve with sun direction and calculate generated power
  }
  if (self->power_generation_W_ < 0) self->power_generation_W_ = 0.0;
}
//= s2e::components::InitSAP(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::LocalCelestialInformation*,double)
SolarArrayPanel _InitSAP(environment::ClockGenerator* clock_generator, int sap_id, const std::string file_name, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::LocalCelestialInformation* local_celestial_information, double component_step_time_s) {
  setting_file_reader::IniAccess sap_conf(file_name);

  const std::string section_name = "SOLAR_ARRAY_PANEL_" + std::to_string(static_cast<long long>(sap_id));

  int prescaler = sap_conf.ReadInt(section_name.c_str(), "prescaler");
  if (prescaler <= 1) prescaler = 1;

  int number_of_series;
  number_of_series = sap_conf.ReadInt(section_name.c_str(), "number_of_series");

  int number_of_parallel;
  number_of_parallel = sap_conf.ReadInt(section_name.c_str(), "number_of_parallel");

  double cell_area_m2;
  cell_area_m2 = sap_conf.ReadDouble(section_name.c_str(), "cell_area_m2");

  math::Vector<3> normal_vector;
  sap_conf.ReadVector(section_name.c_str(), "normal_vector_b", normal_vector);

  double cell_efficiency;
  cell_efficiency = sap_conf.ReadDouble(section_name.c_str(), "cell_efficiency");

  double transmission_efficiency;
  transmission_efficiency = sap_conf.ReadDouble(section_name.c_str(), "transmission_efficiency");

  SolarArrayPanel sap(prescaler, clock_generator, sap_id, number_of_series, number_of_parallel, cell_area_m2, normal_vector, cell_efficiency,
                      transmission_efficiency, srp_environment, local_celestial_information, component_step_time_s);

  return sap;
}
//= s2e::components::InitSAP(s2e::environment::ClockGenerator*,int,conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>,consts2e::environment::SolarRadiationPressureEnvironment*,double)
SolarArrayPanel _InitSAP2(environment::ClockGenerator* clock_generator, int sap_id, const std::string file_name, const environment::SolarRadiationPressureEnvironment* srp_environment, double component_step_time_s) {
  setting_file_reader::IniAccess sap_conf(file_name);

  const std::string section_name = "SOLAR_ARRAY_PANEL_" + std::to_string(static_cast<long long>(sap_id));

  int prescaler = sap_conf.ReadInt(section_name.c_str(), "prescaler");
  if (prescaler <= 1) prescaler = 1;

  int number_of_series;
  number_of_series = sap_conf.ReadInt(section_name.c_str(), "number_of_series");

  int number_of_parallel;
  number_of_parallel = sap_conf.ReadInt(section_name.c_str(), "number_of_parallel");

  double cell_area_m2;
  cell_area_m2 = sap_conf.ReadDouble(section_name.c_str(), "cell_area_m2");

  math::Vector<3> normal_vector;
  sap_conf.ReadVector(section_name.c_str(), "normal_vector_b", normal_vector);

  double cell_efficiency;
  cell_efficiency = sap_conf.ReadDouble(section_name.c_str(), "cell_efficiency");

  double transmission_efficiency;
  transmission_efficiency = sap_conf.ReadDouble(section_name.c_str(), "transmission_efficiency");

  SolarArrayPanel sap(prescaler, clock_generator, sap_id, number_of_series, number_of_parallel, cell_area_m2, normal_vector, cell_efficiency,
                      transmission_efficiency, srp_environment, component_step_time_s);

  return sap;
}
}

// ---------------------------------------------------------------- components/real/power/battery.hpp
namespace s2e::components::ref {
//= s2e::components::Battery::SetChargeCurrent
void Battery_SetChargeCurrent(Battery* self, const double current_A) { self->charge_current_A_ = current_A; }
//= s2e::components::Battery::GetVoltage_V
double Battery_GetVoltage_V(Battery* self) { return self->battery_voltage_V_; }
//= s2e::components::Battery::GetResistance_Ohm
double Battery_GetResistance_Ohm(Battery* self) { return self->battery_resistance_Ohm_; }
//= s2e::components::Battery::GetCcChargeCurrent_C
double Battery_GetCcChargeCurrent_C(Battery* self) { return self->cc_charge_current_C_; }
//= s2e::components::Battery::GetCvChargeVoltage_V
double Battery_GetCvChargeVoltage_V(Battery* self) { return self->cv_charge_voltage_V_; }
//= s2e::components::Battery::GetCellCapacity_Ah
double Battery_GetCellCapacity_Ah(Battery* self) { return self->cell_capacity_Ah_; }
//= s2e::components::Battery::GetNumberOfParallel
int Battery_GetNumberOfParallel(Battery* self) { return self->number_of_parallel_; }
}

// ---------------------------------------------------------------- components/real/power/power_control_unit.hpp
namespace s2e::components::ref {
//= s2e::components::PowerControlUnit::GetPowerPort(constint)
PowerPort* PowerControlUnit_GetPowerPort(PowerControlUnit* self, const int port_id) { return self->power_ports_.at(port_id); }
//= s2e::components::PowerControlUnit::GetPowerPort(constint)c
PowerPort* PowerControlUnit_GetPowerPort2(PowerControlUnit* self, const int port_id) { return self->power_ports_.at(port_id); }
}

// ---------------------------------------------------------------- components/real/power/solar_array_panel.hpp
namespace s2e::components::ref {
//= s2e::components::SolarArrayPanel::GetPowerGeneration_W
double SolarArrayPanel_GetPowerGeneration_W(SolarArrayPanel* self) { return self->power_generation_W_; }
//= s2e::components::SolarArrayPanel::SetVoltage_V
void SolarArrayPanel_SetVoltage_V(SolarArrayPanel* self, const double voltage_V) { self->voltage_V_ = voltage_V; }
}
