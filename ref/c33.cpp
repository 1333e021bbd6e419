// Reference specification for C33 (parsed, never compiled to code or run).
#include "base.hpp"
#include <cmath>
#include <iomanip>
#include <sstream>
#include "math_physics/time_system/date_time_format.hpp"
#include "math_physics/time_system/epoch_time.hpp"
#include "math_physics/time_system/gps_time.hpp"
// ---------------------------------------------------------------- math_physics/time_system/date_time_format.cpp
namespace s2e::time_system::ref {
//= s2e::time_system::DateTime::DateTime(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>)
void DateTime_Ctor(DateTime* self, const std::string date_time) {
  sscanf(date_time.c_str(), "%zu/%zu/%zu %zu:%zu:%lf", &self->year_, &self->month_, &self->day_, &self->hour_, &self->minute_, &self->second_);
}
//= s2e::time_system::DateTime::DateTime(consts2e::time_system::EpochTime)
void DateTime_Ctor2(DateTime* self, const EpochTime epoch_time) {
  // No leap second calculation
  const int mday[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31,
                      31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};  //!< Number of days in a month
  int days, sec, mon, day;

  // leap year if year%4==0 in 1901-2099
  days = (int)(epoch_time.GetTime_s() / 86400);
  sec = (int)(epoch_time.GetTime_s() - (time_t)days * 86400);

  for (day = days % 1461, mon = 0; mon < 48; mon++) {
    if (day >= mday[mon])
      day -= mday[mon];
    else
      break;
  }

  self->year_ = 1970 + days / 1461 * 4 + mon / 12;
  self->month_ = mon % 12 + 1;
  self->day_ = day + 1;
  self->hour_ = sec / 3600;
  self->minute_ = sec % 3600 / 60;
  self->second_ = sec % 60 + epoch_time.GetFraction_s();
}
//= s2e::time_system::DateTime::GetAsString
std::string DateTime_GetAsString(DateTime* self) {
  std::stringstream stream;
  stream << std::setw(4) << std::setfill('0') << (int)self->year_ << "/";
  stream << std::setw(2) << std::setfill('0') << (int)self->month_ << "/";
  stream << std::setw(2) << std::setfill('0') << (int)self->day_ << " ";

  stream << std::setw(2) << std::setfill('0') << (int)self->hour_ << ":";
  stream << std::setw(2) << std::setfill('0') << (int)self->minute_ << ":";
  stream << self->second_;
  std::string output = stream.str();
  return output;
}
}

// ---------------------------------------------------------------- math_physics/time_system/epoch_time.cpp
namespace s2e::time_system::ref {
//= s2e::time_system::EpochTime::EpochTime(consts2e::time_system::DateTime)
void EpochTime_Ctor(EpochTime* self, const DateTime date_time) {
  // No leap second calculation
  const int doy[] = {1, 32, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335};  //!< Day of Year for the 1st day of each month
  // Parse Calender
  const size_t year = date_time.GetYear();
  const size_t month = date_time.GetMonth();
  const size_t day = date_time.GetDay();
  const size_t hour = date_time.GetHour();
  const size_t minute = date_time.GetMinute();
  const size_t second = (size_t)std::floor(date_time.GetSecond());

  // TODO: assertion
  if (year < 1970 || month < 1 || 12 < month) return;
  if (day < 1 || 32 <= day) return;
  if (60 <= minute) return;
  if (60 <= second) return;

  // leap year if year%4==0 in 1901-2099
  uint64_t days = (year - 1970) * 365 + (year - 1969) / 4 + doy[month - 1] + day - 2 + (year % 4 == 0 && month >= 3 ? 1 : 0);
  self->time_s_ = (uint64_t)days * 86400 + hour * 3600 + minute * 60 + second;
  self->fraction_s_ = date_time.GetSecond() - (double)second;
}
//= s2e::time_system::EpochTime::operator==
bool EpochTime_operator__(EpochTime* self, const EpochTime& target) {
  if (self->time_s_ != target.time_s_) return false;
  if (self->fraction_s_ != target.fraction_s_) return false;  // TODO: comparison of double
  return true;
}
//= s2e::time_system::EpochTime::operator>
bool EpochTime_operator_(EpochTime* self, const EpochTime& right_side) {
  if (*self == right_side) return false;
  if (self->time_s_ < right_side.time_s_) return false;
  if (self->time_s_ > right_side.time_s_) return true;
  if (self->fraction_s_ < right_side.fraction_s_) return false;
  return true;
}
//= s2e::time_system::EpochTime::operator<
bool EpochTime_operator_2(EpochTime* self, const EpochTime& right_side) {
  if (*self == right_side) return false;
  if (self->time_s_ > right_side.time_s_) return false;
  if (self->time_s_ < right_side.time_s_) return true;
  if (self->fraction_s_ > right_side.fraction_s_) return false;
  return true;
}
//= s2e::time_system::EpochTime::operator+
EpochTime EpochTime_operator_3(EpochTime* self, const EpochTime& right_side) {
  time_t time_s = self->time_s_ + right_side.GetTime_s();
  double fraction_s = self->fraction_s_ + right_side.GetFraction_s();
  if (fraction_s >= 1.0) {
    fraction_s -= 1.0;
    time_s += 1;
  }
  EpochTime result(time_s, fraction_s);
  return result;
}
//= s2e::time_system::EpochTime::operator-
EpochTime EpochTime_operator_4(EpochTime* self, const EpochTime& right_side) {
  time_t time_s = self->time_s_ - right_side.GetTime_s();  // TODO: assertion for negative value
  double fraction_s = self->fraction_s_ - right_side.GetFraction_s();
  if (fraction_s < 0.0) {
    fraction_s += 1.0;
    time_s -= 1;
  }
  EpochTime result(time_s, fraction_s);
  return result;
}
}

// ---------------------------------------------------------------- math_physics/time_system/gps_time.cpp
namespace s2e::time_system::ref {
//= s2e::time_system::GpsTime::CalcGpsWeekTime
void GpsTime_CalcGpsWeekTime(GpsTime* self) {
  EpochTime time_diff = self->epoch_time_ - GpsTime::kEpochOfGpsTimeInEpochTime_;
  self->week_ = (size_t)(time_diff.GetTime_s() / GpsTime::kSecondsInWeek_);
  self->elapsed_time_from_week_s_ = (double)(time_diff.GetTime_s() - self->week_ * GpsTime::kSecondsInWeek_) + time_diff.GetFraction_s();
}
//= s2e::time_system::GpsTime::CalcEpochTime
void GpsTime_CalcEpochTime(GpsTime* self) {
  size_t integer_time_s = (size_t)self->elapsed_time_from_week_s_;
  double fraction_s = self->elapsed_time_from_week_s_ - (double)(integer_time_s);
  time_t time_s = self->week_ * GpsTime::kSecondsInWeek_ + integer_time_s;
  EpochTime time_diff(time_s, fraction_s);

  self->epoch_time_ = GpsTime::kEpochOfGpsTimeInEpochTime_ + time_diff;
}
}

// ---------------------------------------------------------------- math_physics/time_system/test_date_time_format.cpp
namespace s2e::ref {
}

// ---------------------------------------------------------------- math_physics/time_system/test_epoch_time.cpp
namespace s2e::ref {
}

// ---------------------------------------------------------------- math_physics/time_system/test_gps_time.cpp
namespace s2e::ref {
}

// ---------------------------------------------------------------- math_physics/time_system/date_time_format.hpp
namespace s2e::time_system::ref {
//= s2e::time_system::DateTime::DateTime(constunsignedlong,constunsignedlong,constunsignedlong,constunsignedlong,constunsignedlong,constdouble)
void DateTime_Ctor(DateTime* self, const size_t year, const size_t month, const size_t day, const size_t hour, const size_t minute, const double second) {
  self->year_ = year;
  self->month_ = month;
  self->day_ = day;
  self->hour_ = hour;
  self->minute_ = minute;
  self->second_ = second;
}
//= s2e::time_system::DateTime::GetYear
size_t DateTime_GetYear(DateTime* self) { return self->year_; }
//= s2e::time_system::DateTime::GetMonth
size_t DateTime_GetMonth(DateTime* self) { return self->month_; }
//= s2e::time_system::DateTime::GetDay
size_t DateTime_GetDay(DateTime* self) { return self->day_; }
//= s2e::time_system::DateTime::GetHour
size_t DateTime_GetHour(DateTime* self) { return self->hour_; }
//= s2e::time_system::DateTime::GetMinute
size_t DateTime_GetMinute(DateTime* self) { return self->minute_; }
//= s2e::time_system::DateTime::GetSecond
double DateTime_GetSecond(DateTime* self) { return self->second_; }
}

// ---------------------------------------------------------------- math_physics/time_system/epoch_time.hpp
namespace s2e::time_system::ref {
//= s2e::time_system::EpochTime::EpochTime(constunsignedlong,constdouble)
void EpochTime_Ctor(EpochTime* self, const uint64_t time_s, const double fraction_s) {
  self->time_s_ = time_s;
  self->fraction_s_ = fraction_s;
}
//= s2e::time_system::EpochTime::GetTime_s
uint64_t EpochTime_GetTime_s(EpochTime* self) { return self->time_s_; }
//= s2e::time_system::EpochTime::GetFraction_s
double EpochTime_GetFraction_s(EpochTime* self) { return self->fraction_s_; }
//= s2e::time_system::EpochTime::GetTimeWithFraction_s
double EpochTime_GetTimeWithFraction_s(EpochTime* self) { return (double)(self->time_s_) + self->fraction_s_; }
//= s2e::time_system::EpochTime::operator!=
bool EpochTime_operator__1(EpochTime* self, const EpochTime& target) { return !(*self == target); }
//= s2e::time_system::EpochTime::operator<=
bool EpochTime_operator__2(EpochTime* self, const EpochTime& right_side) { return !(*self > right_side); }
//= s2e::time_system::EpochTime::operator>=
bool EpochTime_operator__3(EpochTime* self, const EpochTime& right_side) { return !(*self < right_side); }
}

// ---------------------------------------------------------------- math_physics/time_system/gps_time.hpp
namespace s2e::time_system::ref {
//= s2e::time_system::GpsTime::GpsTime(constunsignedlong,constdouble)
void GpsTime_Ctor(GpsTime* self, const size_t week, const double elapsed_time_from_week_s) {
  self->week_ = week;
  self->elapsed_time_from_week_s_ = elapsed_time_from_week_s;

    self->CalcEpochTime();
    self->date_time_ = DateTime(self->epoch_time_);
  }
//= s2e::time_system::GpsTime::GpsTime(consts2e::time_system::EpochTime)
void GpsTime_Ctor2(GpsTime* self, const EpochTime epoch_time) {
  self->date_time_ = DateTime(epoch_time);
  self->epoch_time_ = epoch_time;
 self->CalcGpsWeekTime(); }
//= s2e::time_system::GpsTime::GpsTime(consts2e::time_system::DateTime)
void GpsTime_Ctor3(GpsTime* self, const DateTime date_time) {
  self->date_time_ = date_time;
  self->epoch_time_ = EpochTime(self->date_time_);
 self->CalcGpsWeekTime(); }
//= s2e::time_system::GpsTime::GetWeek
size_t GpsTime_GetWeek(GpsTime* self) { return self->week_; }
//= s2e::time_system::GpsTime::GetElapsedTimeFromWeek_s
double GpsTime_GetElapsedTimeFromWeek_s(GpsTime* self) { return self->elapsed_time_from_week_s_; }
//= s2e::time_system::GpsTime::GetEpochTime
EpochTime GpsTime_GetEpochTime(GpsTime* self) { return self->epoch_time_; }
//= s2e::time_system::GpsTime::GetDateTime
DateTime GpsTime_GetDateTime(GpsTime* self) { return self->date_time_; }
//= s2e::time_system::GpsTime::GetDateTimeAsUtc
DateTime GpsTime_GetDateTimeAsUtc(GpsTime* self) { return self->epoch_time_ - GpsTime::kLeapSecondAheadFromUtc_; }
}
