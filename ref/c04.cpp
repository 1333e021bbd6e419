// Reference specification for C04 (parsed, never compiled to code or run).
#include "setting_file_reader/initialize_file_access.hpp"
#include "environment/global/simulation_time.hpp"
#include <SpiceUsr.h>
#include <iomanip>
#include <sstream>
namespace ref {
using namespace s2e::environment;
//= s2e::environment::SimulationTime::UpdateTime assume=simulation_speed_:0.0 leaves=s2e::environment::SimulationTime::ConvJDtoCalendarDay
void UpdateTime(SimulationTime* self) {
  const double t = self->elapsed_time_sec_ + self->step_sec_;
  self->elapsed_time_sec_ = t;
  self->current_jd_ = self->start_jd_ + t / 86400.0;
  self->current_sidereal_ = gstime(self->current_jd_);
  JdToDecyear(self->current_jd_, &self->current_decyear_);
  self->ConvJDtoCalendarDay(self->current_jd_);
  self->state_.finish = t > self->end_sec_;
  self->state_.running = true;
  self->attitude_update_flag_ = (self->attitude_update_counter_ + 1) * self->step_sec_ >= self->attitude_update_interval_sec_;
  self->attitude_update_counter_ = self->attitude_update_flag_ ? 0 : self->attitude_update_counter_ + 1;
  self->orbit_update_flag_ = (self->orbit_update_counter_ + 1) * self->step_sec_ >= self->orbit_update_interval_sec_;
  self->orbit_update_counter_ = self->orbit_update_flag_ ? 0 : self->orbit_update_counter_ + 1;
  self->thermal_update_flag_ = (self->thermal_update_counter_ + 1) * self->step_sec_ >= self->thermal_update_interval_sec_;
  self->thermal_update_counter_ = self->thermal_update_flag_ ? 0 : self->thermal_update_counter_ + 1;
  self->component_update_flag_ = (self->component_update_counter_ + 1) * self->step_sec_ >= self->component_update_interval_sec_;
  self->component_update_counter_ = self->component_update_flag_ ? 0 : self->component_update_counter_ + 1;
  self->state_.log_output = (self->log_counter_ + 1) * self->step_sec_ >= self->log_output_interval_sec_;
  self->log_counter_ = self->state_.log_output ? 0 : self->log_counter_ + 1;
  self->state_.disp_output = (self->display_counter_ + 1) >= self->display_period_;
  self->display_counter_ = self->state_.disp_output ? self->display_counter_ + 1 - (int)self->display_period_ : self->display_counter_ + 1;
}

//= s2e::environment::SimulationTime::SetParameters
void SetParameters(SimulationTime* self) {
  // the first step updates everything; one log row for the initial state
  self->elapsed_time_sec_ = 0.0;
  self->attitude_update_counter_ = self->orbit_update_counter_ = self->thermal_update_counter_ = self->component_update_counter_ = 1;
  self->attitude_update_flag_ = self->orbit_update_flag_ = self->thermal_update_flag_ = self->component_update_flag_ = false;
  self->log_counter_ = 0;
  self->display_counter_ = 0;
  self->state_.log_output = true;
}

//= s2e::environment::SimulationTime::ConvJDtoCalendarDay
void ConvJDtoCalendarDay(SimulationTime* self, const double jd) {
  int y, mo, d, h, mi;
  double s;
  invjday(jd, y, mo, d, h, mi, s);
  self->current_utc_.year = y;
  self->current_utc_.month = mo;
  self->current_utc_.day = d;
  self->current_utc_.hour = h;
  self->current_utc_.minute = mi;
  self->current_utc_.second = s;
}

//= s2e::environment::SimulationTime::SimulationTime leaves=s2e::environment::SimulationTime::ConvJDtoCalendarDay
void Construct(SimulationTime* self, const double end_sec, const double step_sec, const double att_int, const double att_rk, const double orb_int,
               const double orb_rk, const double th_int, const double th_rk, const double comp_int, const double log_int, const char* start, const double speed) {
  self->end_sec_ = end_sec;
  self->step_sec_ = step_sec;
  self->attitude_update_interval_sec_ = att_int;
  self->attitude_rk_step_sec_ = att_rk;
  self->orbit_update_interval_sec_ = orb_int;
  self->orbit_rk_step_sec_ = orb_rk;
  self->thermal_update_interval_sec_ = th_int;
  self->thermal_rk_step_sec_ = th_rk;
  self->component_update_interval_sec_ = comp_int;
  self->component_propagate_frequency_Hz_ = int(1.0 / comp_int);
  self->log_output_interval_sec_ = log_int;
  self->simulation_speed_ = speed;
  self->display_period_ = end_sec / step_sec / 100.0;
  self->time_exceeds_continuously_limit_sec_ = 1.0;
  sscanf(start, "%d/%d/%d %d:%d:%lf", &self->start_year_, &self->start_month_, &self->start_day_, &self->start_hour_, &self->start_minute_, &self->start_sec_);
  jday(self->start_year_, self->start_month_, self->start_day_, self->start_hour_, self->start_minute_, self->start_sec_, self->start_jd_);
  self->current_jd_ = self->start_jd_;
  self->current_sidereal_ = gstime(self->current_jd_);
  JdToDecyear(self->current_jd_, &self->current_decyear_);
  self->ConvJDtoCalendarDay(self->current_jd_);
  self->state_.disp_output = self->state_.finish = self->state_.running = false;
  self->SetParameters();
  std::ostringstream stream;
  stream << std::fixed << std::setprecision(11) << "jd " << self->start_jd_;
  str2et_c(stream.str().c_str(), &self->start_ephemeris_time_);
}

//= s2e::environment::SimulationTime::ResetClock skip=clock_last_time_completed_step_in_time_
void ResetClock(SimulationTime* self) { self->clock_start_time_millisec_ = std::chrono::system_clock::now(); }
//= s2e::environment::SimulationTime::GetElapsedTime_s
double GetElapsedTime_s(SimulationTime* self) { return self->elapsed_time_sec_; }
//= s2e::environment::SimulationTime::GetSimulationStep_s
double GetSimulationStep_s(SimulationTime* self) { return self->step_sec_; }
//= s2e::environment::SimulationTime::GetAttitudePropagateFlag
bool GetAttitudePropagateFlag(SimulationTime* self) { return self->attitude_update_flag_; }
//= s2e::environment::SimulationTime::GetOrbitPropagateFlag
bool GetOrbitPropagateFlag(SimulationTime* self) { return self->orbit_update_flag_; }
//= s2e::environment::SimulationTime::GetThermalPropagateFlag
bool GetThermalPropagateFlag(SimulationTime* self) { return self->thermal_update_flag_; }
//= s2e::environment::SimulationTime::GetCompoUpdateFlag
bool GetCompoUpdateFlag(SimulationTime* self) { return self->component_update_flag_; }
//= s2e::environment::SimulationTime::GetAttitudeUpdateInterval_s
double GetAttitudeUpdateInterval_s(SimulationTime* self) { return self->attitude_update_interval_sec_; }
//= s2e::environment::SimulationTime::GetOrbitUpdateInterval_s
double GetOrbitUpdateInterval_s(SimulationTime* self) { return self->orbit_update_interval_sec_; }
//= s2e::environment::SimulationTime::GetThermalUpdateInterval_s
double GetThermalUpdateInterval_s(SimulationTime* self) { return self->thermal_update_interval_sec_; }
//= s2e::environment::SimulationTime::GetAttitudeRkStepTime_s
double GetAttitudeRkStepTime_s(SimulationTime* self) { return self->attitude_rk_step_sec_; }
//= s2e::environment::SimulationTime::GetOrbitRkStepTime_s
double GetOrbitRkStepTime_s(SimulationTime* self) { return self->orbit_rk_step_sec_; }
//= s2e::environment::SimulationTime::GetThermalRkStepTime_s
double GetThermalRkStepTime_s(SimulationTime* self) { return self->thermal_rk_step_sec_; }
//= s2e::environment::SimulationTime::GetComponentStepTime_s
double GetComponentStepTime_s(SimulationTime* self) { return self->component_update_interval_sec_; }
//= s2e::environment::SimulationTime::GetEndTime_s
double GetEndTime_s(SimulationTime* self) { return self->end_sec_; }
//= s2e::environment::SimulationTime::GetCurrentTime_jd
double GetCurrentTime_jd(SimulationTime* self) { return self->current_jd_; }
//= s2e::environment::SimulationTime::GetCurrentSiderealTime
double GetCurrentSiderealTime(SimulationTime* self) { return self->current_sidereal_; }
//= s2e::environment::SimulationTime::GetCurrentDecimalYear
double GetCurrentDecimalYear(SimulationTime* self) { return self->current_decyear_; }
//= s2e::environment::SimulationTime::GetCurrentEphemerisTime
double GetCurrentEphemerisTime(SimulationTime* self) { return self->start_ephemeris_time_ + self->elapsed_time_sec_; }
//= s2e::environment::SimulationTime::GetStartYear
int GetStartYear(SimulationTime* self) { return self->start_year_; }
//= s2e::environment::SimulationTime::GetStartMonth
int GetStartMonth(SimulationTime* self) { return self->start_month_; }
//= s2e::environment::SimulationTime::GetStartDay
int GetStartDay(SimulationTime* self) { return self->start_day_; }
//= s2e::environment::SimulationTime::GetStartHour
int GetStartHour(SimulationTime* self) { return self->start_hour_; }
//= s2e::environment::SimulationTime::GetStartMinute
int GetStartMinute(SimulationTime* self) { return self->start_minute_; }
//= s2e::environment::SimulationTime::GetStartSecond
double GetStartSecond(SimulationTime* self) { return self->start_sec_; }

//= s2e::environment::InitSimulationTime leaves=s2e::environment::SimulationTime::SimulationTime
SimulationTime* Init(std::string file_name) {
  s2e::setting_file_reader::IniAccess ini(file_name);
  return new SimulationTime(ini.ReadDouble("TIME", "simulation_duration_s"), ini.ReadDouble("TIME", "simulation_step_s"), ini.ReadDouble("TIME", "attitude_update_period_s"),
                            ini.ReadDouble("TIME", "attitude_integral_step_s"), ini.ReadDouble("TIME", "orbit_update_period_s"), ini.ReadDouble("TIME", "orbit_integral_step_s"),
                            ini.ReadDouble("TIME", "thermal_update_period_s"), ini.ReadDouble("TIME", "thermal_integral_step_s"),
                            ini.ReadDouble("TIME", "component_update_period_s"), ini.ReadDouble("TIME", "log_output_period_s"),
                            ini.ReadString("TIME", "simulation_start_time_utc").c_str(), ini.ReadDouble("TIME", "simulation_speed_setting"));
}
//= s2e::environment::SimulationTime::InitializeState
void InitState(SimulationTime* self) {
  self->state_.running = false;
  self->state_.finish = false;
  self->state_.log_output = false;
  self->state_.disp_output = false;
}
//= s2e::environment::SimulationTime::GetState
TimeState GetStateOf(SimulationTime* self) { return self->state_; }
//= s2e::environment::SimulationTime::GetProgressionRate
int Progression(SimulationTime* self) { return static_cast<int>(std::floor(100.0 * self->elapsed_time_sec_ / self->end_sec_)); }
//= s2e::environment::SimulationTime::GetCurrentUtc
UTC CurrentUtc(SimulationTime* self) { return self->current_utc_; }
//= s2e::environment::SimulationTime::GetComponentPropagateFrequency_Hz
int ComponentFrequency(SimulationTime* self) { return self->component_propagate_frequency_Hz_; }
}  // namespace ref
