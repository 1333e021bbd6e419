// Reference specification for C36 (parsed, never compiled to code or run).
#include "base.hpp"
#include <cassert>
#include <cmath>
#include "dynamics/thermal/heater.hpp"
#include "dynamics/thermal/heater_controller.hpp"
#include "dynamics/thermal/heatload.hpp"
#include "dynamics/thermal/node.hpp"
#include "dynamics/thermal/temperature.hpp"
#include "environment/global/physical_constants.hpp"
#include "environment/global/simulation_time.hpp"
#include "math_physics/math/constants.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "utilities/macros.hpp"
using namespace std;
// ---------------------------------------------------------------- dynamics/thermal/heater.cpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Heater::Heater
void Heater_Ctor(Heater* self, const size_t heater_id, const double power_rating_W) {
  self->heater_id_ = heater_id;
  self->power_rating_W_ = power_rating_W;

  self->AssertHeaterParams();
  self->heater_status_ = HeaterStatus::kOff;
  self->power_output_W_ = 0;
}
//= s2e::dynamics::thermal::Heater::SetHeaterStatus
void Heater_SetHeaterStatus(Heater* self, HeaterStatus heater_status) {
  self->heater_status_ = heater_status;
  if (self->heater_status_ == HeaterStatus::kOn) {
    self->power_output_W_ = self->power_rating_W_;
  } else if (self->heater_status_ == HeaterStatus::kOff) {
    self->power_output_W_ = 0;
  }
}
//= s2e::dynamics::thermal::Heater::PrintParam
void Heater_PrintParam(Heater* self) {
  cout << "heater_id: " << self->heater_id_ << endl;
  cout << "  power rating      : " << self->power_rating_W_ << endl;
  cout << "  status            : " << static_cast<int>(self->heater_status_) << endl;
  cout << "  power output      : " << self->power_output_W_ << endl;
}
//= s2e::dynamics::thermal::Heater::AssertHeaterParams
void Heater_AssertHeaterParams(Heater* self) {
  // Heater ID must be larger than 1
  if (self->heater_id_ < 1) {
    std::cerr << "[WARNING] heater: heater ID is smaller than 1. " << std::endl;
    self->heater_id_ += 1;
    std::cerr << "The heater ID is set as " << self->heater_id_ << std::endl;
  }
  // Power rating must be larger than 0
  if (self->power_rating_W_ < 0.0) {
    std::cerr << "[WARNING] heater: power rating is smaller than 0.0 [W]. " << std::endl;
    std::cerr << "The value is set as 0.0." << std::endl;
    self->power_rating_W_ = 0.0;
  }
}
//= s2e::dynamics::thermal::InitHeater
Heater _InitHeater(const std::vector<std::string>& heater_str) {
  using std::stod;
  using std::stoi;

  size_t heater_str_size_defined = 4;                    // Correct size of heater_str
  assert(heater_str.size() == heater_str_size_defined);  // Check if size of heater_str is correct

  size_t heater_id = 0;
  double power_rating_W = 0;  // [W]

  // Index to read from heater_str for each parameter
  size_t index_heater_id = 0;
  size_t index_power_rating = 1;

  heater_id = stoi(heater_str[index_heater_id]);
  power_rating_W = stod(heater_str[index_power_rating]);

  Heater heater(heater_id, power_rating_W);
  return heater;
}
}

// ---------------------------------------------------------------- dynamics/thermal/heater_controller.cpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::HeaterController::HeaterController
void HeaterController_Ctor(HeaterController* self, const double lower_threshold_degC, const double upper_threshold_degC) {
  self->lower_threshold_degC_ = lower_threshold_degC;
  self->upper_threshold_degC_ = upper_threshold_degC;

  self->AssertHeaterControllerParams();
}
//= s2e::dynamics::thermal::HeaterController::ControlHeater
void HeaterController_ControlHeater(HeaterController* self, Heater* p_heater, double temperature_degC) {
  HeaterStatus heater_status = p_heater->GetHeaterStatus();
  if (heater_status == HeaterStatus::kOn) {
    if (temperature_degC > self->upper_threshold_degC_) {
      p_heater->SetHeaterStatus(HeaterStatus::kOff);
    }
  } else {
    if (temperature_degC < self->lower_threshold_degC_) {
      p_heater->SetHeaterStatus(HeaterStatus::kOn);
    }
  }
}
//= s2e::dynamics::thermal::HeaterController::AssertHeaterControllerParams
void HeaterController_AssertHeaterControllerParams(HeaterController* self) {
  if (self->upper_threshold_degC_ < self->lower_threshold_degC_) {
    std::cerr << "[WARNING] heater_controller: the upper threshold is smaller than the lower threshold. " << std::endl;
    double auto_set_upper_threshold_degC = self->lower_threshold_degC_ + 10.0;
    std::cerr << "The the upper threshold set as" << auto_set_upper_threshold_degC << std::endl;
    self->upper_threshold_degC_ = auto_set_upper_threshold_degC;
  }
}
//= s2e::dynamics::thermal::InitHeaterController
HeaterController _InitHeaterController(const std::vector<std::string>& heater_str) {
  using std::stod;

  size_t heater_str_size_defined = 4;                    // Correct size of heater_str
  assert(heater_str.size() == heater_str_size_defined);  // Check if size of heater_str is correct

  // Index to read from heater_str for each parameter
  size_t index_lower_threshold = 2;
  size_t index_upper_threshold = 3;

  double lower_threshold_degC = 0;  // [degC]
  double upper_threshold_degC = 0;  // [degC]

  lower_threshold_degC = stod(heater_str[index_lower_threshold]);
  upper_threshold_degC = stod(heater_str[index_upper_threshold]);

  HeaterController heater_controller(lower_threshold_degC, upper_threshold_degC);
  return heater_controller;
}
}

// ---------------------------------------------------------------- dynamics/thermal/heatload.cpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Heatload::Heatload
void Heatload_Ctor(Heatload* self, int node_id, std::vector<double> time_table_s, std::vector<double> internal_heatload_table_W) {
  self->node_id_ = node_id;
  self->time_table_s_ = time_table_s;
  self->internal_heatload_table_W_ = internal_heatload_table_W;

  self->elapsed_time_s_ = 0;
  self->elapsed_time_idx_ = 0;
  self->solar_heatload_W_ = 0.0;
  self->albedo_heatload_W_ = 0.0;
  self->internal_heatload_W_ = 0.0;
  self->heater_heatload_W_ = 0.0;
  self->total_heatload_W_ = 0.0;

  self->AssertHeatloadParams();

  self->time_table_period_s_ = self->time_table_s_[self->time_table_s_.size() - 1];
  self->residual_elapsed_time_s_ = fmod(self->elapsed_time_s_, self->time_table_period_s_);
}
//= s2e::dynamics::thermal::Heatload::CalcInternalHeatload
void Heatload_CalcInternalHeatload(Heatload* self) {
  double time_table_lower_s = self->time_table_s_[self->elapsed_time_idx_];      // Time in time_table_s_ that is below and closest to elapsed_time_s_ [s]
  double time_table_upper_s = self->time_table_s_[self->elapsed_time_idx_ + 1];  // Time in time_table_s_ that is above and closest to elapsed_time_s_ [s]

  double internal_heatload_table_lower_W = self->internal_heatload_table_W_[self->elapsed_time_idx_];      // Internal heat value at time_table_lower_s [W]
  double internal_heatload_table_upper_W = self->internal_heatload_table_W_[self->elapsed_time_idx_ + 1];  // Internal heat value at time_table_upper_s [W]

  double time_ratio = (self->residual_elapsed_time_s_ - time_table_lower_s) / (time_table_upper_s - time_table_lower_s);  // ratio of interpolation
  double internal_heatload_W =
      internal_heatload_table_lower_W +
      time_ratio * (internal_heatload_table_upper_W - internal_heatload_table_lower_W);  // internal heatload calculated by interpolation [W]
  self->internal_heatload_W_ = internal_heatload_W;
}
//= s2e::dynamics::thermal::Heatload::SetElapsedTime_s
void Heatload_SetElapsedTime_s(Heatload* self, double elapsed_time_s) {
  self->elapsed_time_s_ = elapsed_time_s;
  self->residual_elapsed_time_s_ = fmod(self->elapsed_time_s_, self->time_table_period_s_);

  // the interval is searched from the beginning since the time table is repeated
  self->elapsed_time_idx_ = 0;
  while (self->elapsed_time_idx_ + 2 < self->time_table_s_.size() && self->residual_elapsed_time_s_ > self->time_table_s_[self->elapsed_time_idx_ + 1]) {
    self->elapsed_time_idx_++;
  }
}
//= s2e::dynamics::thermal::Heatload::AssertHeatloadParams
void Heatload_AssertHeatloadParams(Heatload* self) {
  // size of time_table_s_ and internal_heatload_table_W_ must be larger than 1
  assert(self->time_table_s_.size() >= 1);
  assert(self->internal_heatload_table_W_.size() >= 1);
  // size of time_table_s_ and internal_heatload_table_W_ must be the same
  assert(self->time_table_s_.size() == self->internal_heatload_table_W_.size());
}
//= s2e::dynamics::thermal::InitHeatload
Heatload _InitHeatload(const std::vector<std::string>& time_str, const std::vector<std::string>& internal_heatload_str) {
  using std::stod;
  using std::stoi;

  assert(time_str.size() >= 2);                             // Number of columns must be larger than 2
  assert(internal_heatload_str.size() >= 2);                // Number of columns must be larger than 2
  assert(time_str.size() == internal_heatload_str.size());  // Number of columns must be same

  std::vector<double> time_table_s(time_str.size() - 1);                            // exclude index
  std::vector<double> internal_heatload_table_W(internal_heatload_str.size() - 1);  // exclude index

  int node_id = stoi(internal_heatload_str[0]);  // First data of internal_heatload_str is node id

  // read table
  for (size_t i = 0; i < time_str.size() - 1; ++i) {
    time_table_s[i] = stod(time_str[i + 1]);
    internal_heatload_table_W[i] = stod(internal_heatload_str[i + 1]);
  }

  return Heatload(node_id, time_table_s, internal_heatload_table_W);
}
}

// ---------------------------------------------------------------- dynamics/thermal/node.cpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Node::Node
void Node_Ctor(Node* self, const size_t node_id, const string node_name, const NodeType node_type, const size_t heater_id, const double temperature_ini_K, const double capacity_J_K, const double alpha, const double epsilon, const double area_m2, math::Vector<3> normal_vector_b) {
  self->node_id_ = node_id;
  self->node_name_ = node_name;
  self->heater_id_ = heater_id;
  self->temperature_K_ = temperature_ini_K;
  self->capacity_J_K_ = capacity_J_K;
  self->alpha_ = alpha;
  self->epsilon_ = epsilon;
  self->area_m2_ = area_m2;
  self->node_type_ = node_type;
  self->normal_vector_b_ = normal_vector_b;

  self->AssertNodeParams();
  self->solar_radiation_W_ = 0.0;
  self->albedo_radiation_W_ = 0.0;
  self->earth_infrared_W_ = 0.0;
}
//= s2e::dynamics::thermal::Node::CalcSolarRadiation_W
double Node_CalcSolarRadiation_W(Node* self, math::Vector<3> sun_direction_b, double solar_flux_W_m2) {
  double cos_theta = InnerProduct(sun_direction_b, self->normal_vector_b_);

  // calculate sun_power
  if (cos_theta > 0.0)
    self->solar_radiation_W_ = solar_flux_W_m2 * self->area_m2_ * self->alpha_ * cos_theta;
  else
    self->solar_radiation_W_ = 0.0;
  return self->solar_radiation_W_;
}
//= s2e::dynamics::thermal::Node::CalcAlbedoRadiation_W
double Node_CalcAlbedoRadiation_W(Node* self, math::Vector<3> earth_position_b_m, math::Vector<3> sun_direction_b, double earth_albedo_W_m2) {
  math::Vector<3> sat2earth_direction_b = earth_position_b_m.CalcNormalizedVector();
  math::Vector<3> sat2sun_direction_b = sun_direction_b;

  math::Vector<3> vec_a = -sat2earth_direction_b;
  math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();

  const double cos_theta = InnerProduct(vec_a, vec_b);
  const double lamda = acos(std::max(-1.0, std::min(1.0, InnerProduct(sat2earth_direction_b, self->normal_vector_b_))));
  const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
  const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
  const double phi_m = asin(1.0 / H);
  const double b = sqrt(H * H - 1.0);
  double view_factor;

  // Calc view factor
  // ref)POWER INPUT TO A SMALL FLAT PLATE FROM A DIFFUSELY RADIATING SPHERE WITH APPLICATION TO EARTH SATELLITES: THE SPINNING PLATE
  if (h < 1732e3) {
    if (lamda <= math::pi / 2.0 - phi_m) {
      view_factor = cos(lamda) / H / H;
    } else if (lamda <= math::pi / 2.0 + phi_m) {
      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
    } else {
      view_factor = 0.0;
    }
  } else {
    if (lamda < math::pi / 2.0) {
      // Consider in terms of steradian
      view_factor = 0.25 / H / H;
    } else {
      view_factor = 0.0;
    }
  }

  // Banister's approximation. ref) RADIATION GEOMETRY FACTOR BETWEEN THE EARTH AND A SATELLITE
  if (cos_theta > 0.0) {
    // TODO: correlate the value of the exponent with the view factor
    view_factor *= pow(cos_theta, 3.0);
  } else {
    view_factor = 0.0;
  }

  // albedo radiation calculation; earth_albedo_W_m2 reflects the shadow coefficient.
  self->albedo_radiation_W_ = earth_albedo_W_m2 * self->area_m2_ * self->alpha_ * view_factor;

  return self->albedo_radiation_W_;
}
//= s2e::dynamics::thermal::Node::CalcEarthInfraredRadiation_W
double Node_CalcEarthInfraredRadiation_W(Node* self, math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
  math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();

  const double lamda = acos(std::max(-1.0, std::min(1.0, InnerProduct(earth_direction_b, self->normal_vector_b_))));
  const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
  const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
  const double phi_m = asin(1.0 / H);
  const double b = sqrt(H * H - 1.0);
  double view_factor;

  // Calc view factor
  // The magic number. ref) POWER INPUT TO A SMALL FLAT PLATE FROM A DIFFUSELY
  // RADIATING SPHERE WITH APPLICATION TO EARTH SATELLITES: THE SPINNING PLATE
  if (h < 1732e3) {
    if (lamda <= math::pi / 2.0 - phi_m) {
      view_factor = cos(lamda) / H / H;
    } else if (lamda <= math::pi / 2.0 + phi_m) {
      view_factor = 1.0 / 2.0 - 1.0 / math::pi * asin(b / (H * sin(lamda))) +
                    1.0 / (math::pi * pow(H, 2.0)) * (cos(lamda) * acos(-b / tan(lamda)) - b * sqrt(1.0 - pow(H * cos(lamda), 2.0)));
    } else {
      view_factor = 0.0;
    }
  } else {
    if (lamda < math::pi / 2.0) {
      // Consider in terms of steradian
      view_factor = 0.25 / H / H;
    } else {
      view_factor = 0.0;
    }
  }

  // earth infrared radiation calculation
  self->earth_infrared_W_ = earth_infrared_W_m2 * self->area_m2_ * self->epsilon_ * view_factor;

  return self->earth_infrared_W_;
}
//= s2e::dynamics::thermal::Node::PrintParam
void Node_PrintParam(Node* self) {
  string node_type_str = "";
  if (self->node_type_ == NodeType::kDiffusive) {
    node_type_str = "Diffusive";
  } else if (self->node_type_ == NodeType::kBoundary) {
    node_type_str = "Boundary";
  } else if (self->node_type_ == NodeType::kArithmetic) {
    node_type_str = "Arithmetic";
  }
  cout << "node_id: " << self->node_id_ << endl;
  cout << "  node_name    : " << self->node_name_ << endl;
  cout << "  temperature  : " << self->temperature_K_ << endl;
  cout << "  alpha        : " << self->alpha_ << endl;
  cout << "  epsilon      : " << self->epsilon_ << endl;
  cout << "  capacity     : " << self->capacity_J_K_ << endl;
  cout << "  node type    : " << node_type_str << endl;
  cout << "  heater id    : " << self->heater_id_ << endl;
  cout << "  Normal Vector: ";
  for (size_t i = 0; i < 3; i++) {
    cout << self->normal_vector_b_[i] << " ";
  }
  cout << endl;
}
//= s2e::dynamics::thermal::Node::AssertNodeParams
void Node_AssertNodeParams(Node* self) {
  // Temperature must be larger than zero kelvin
  if (self->temperature_K_ < 0.0) {
    std::cerr << "[WARNING] node: temperature is less than zero [K]." << std::endl;
    std::cerr << "The value is set as 0.0." << std::endl;
    self->temperature_K_ = 0.0;
  }
  // Capacity must be larger than 0, use 0 when node is boundary or arithmetic
  if (self->capacity_J_K_ < 0.0) {
    std::cerr << "[WARNING] node: capacity is less than zero [J/K]." << std::endl;
    std::cerr << "The value is set as 0.0." << std::endl;
    self->capacity_J_K_ = 0.0;
  }
  // alpha must be between 0 and 1
  if (self->alpha_ < 0.0 || self->alpha_ > 1.0) {
    std::cerr << "[WARNING] node: alpha is over the range [0, 1]." << std::endl;
    std::cerr << "The value is set as 0.0." << std::endl;
    self->alpha_ = 0.0;
  }

  // epsilon must be between 0 and 1
  if (self->epsilon_ < 0.0 || self->epsilon_ > 1.0) {
    std::cerr << "[WARNING] node: epsilon is over the range [0, 1]." << std::endl;
    std::cerr << "The value is set as 0.0." << std::endl;
    self->epsilon_ = 0.0;
  }

  // Area must be larger than 0
  if (self->area_m2_ < 0.0) {
    std::cerr << "[WARNING] node: area is less than zero [m2]." << std::endl;
    std::cerr << "The value is set as 0.0." << std::endl;
    self->area_m2_ = 0.0;
  }
}
//= s2e::dynamics::thermal::InitNode
Node _InitNode(const std::vector<std::string>& node_str) {
  using std::stod;
  using std::stoi;

  size_t node_str_size_defined = 12;                 // Correct size of node_str
  assert(node_str.size() == node_str_size_defined);  // Check if size of node_str is correct

  size_t node_id = 0;               // node number
  std::string node_label = "temp";  // node name
  size_t node_type_int = 0;         // node type
  size_t heater_id = 0;             // heater node index
  double temperature_K = 0.0;       // [K]
  double capacity_J_K = 0.0;        // [J/K]
  double alpha = 0.0;               // []
  double epsilon = 0.0;             // []
  double area_m2 = 0.0;             // [m^2]

  // Index to read from node_str for each parameter
  size_t index_node_id = 0;
  size_t index_node_label = 1;
  size_t index_node_type = 2;
  size_t index_heater_id = 3;
  size_t index_capacity = 4;
  size_t index_alpha = 5;
  size_t index_epsilon = 6;
  size_t index_area = 7;
  size_t index_normal_v_b_head = 8;
  size_t index_temperature = 11;

  node_id = stoi(node_str[index_node_id]);
  node_label = node_str[index_node_label];
  node_type_int = stoi(node_str[index_node_type]);
  heater_id = stoi(node_str[index_heater_id]);
  capacity_J_K = stod(node_str[index_capacity]);
  alpha = stod(node_str[index_alpha]);
  epsilon = stod(node_str[index_epsilon]);
  area_m2 = stod(node_str[index_area]);
  math::Vector<3> normal_v_b;
  for (size_t i = 0; i < 3; i++) {
    normal_v_b[i] = stod(node_str[index_normal_v_b_head + i]);
  }

  // Normalize Norm Vector (Except for Boundary and Arithmetic Nodes)
  if (node_type_int == 0) {
    double norm = normal_v_b.CalcNorm();
    for (size_t i = 0; i < 3; i++) {
      normal_v_b[i] = normal_v_b[i] / norm;
    }
  }

  temperature_K = stod(node_str[index_temperature]);

  NodeType node_type = NodeType::kDiffusive;
  if (node_type_int == 1) {
    node_type = NodeType::kBoundary;
  } else if (node_type_int == 2) {
    node_type = NodeType::kArithmetic;
  }
  Node node(node_id, node_label, node_type, heater_id, temperature_K, capacity_J_K, alpha, epsilon, area_m2, normal_v_b);
  return node;
}
}

// ---------------------------------------------------------------- dynamics/thermal/temperature.cpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Temperature::Temperature(conststd::vector<std::vector<double,std::allocator<double>>,std::allocator<std::vector<double,std::allocator<double>>>>,conststd::vector<std::vector<double,std::allocator<double>>,std::allocator<std::vector<double,std::allocator<double>>>>,std::vector<s2e::dynamics::thermal::Node,std::allocator<s2e::dynamics::thermal::Node>>,std::vector<s2e::dynamics::thermal::Heatload,std::allocator<s2e::dynamics::thermal::Heatload>>,std::vector<s2e::dynamics::thermal::Heater,std::allocator<s2e::dynamics::thermal::Heater>>,std::vector<s2e::dynamics::thermal::HeaterController,std::allocator<s2e::dynamics::thermal::HeaterController>>,constunsignedlong,constdouble,consts2e::environment::SolarRadiationPressureEnvironment*,consts2e::environment::EarthAlbedo*,consts2e::environment::EarthInfrared*,constbool,consts2e::dynamics::thermal::SolarCalcSetting,constbool)
void Temperature_Ctor(Temperature* self, const vector<vector<double>> conductance_matrix_W_K, const vector<vector<double>> radiation_matrix_m2, vector<Node> nodes, vector<Heatload> heatloads, vector<Heater> heaters, vector<HeaterController> heater_controllers, const size_t node_num, const double propagation_step_s, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::EarthAlbedo* earth_albedo, const environment::EarthInfrared* earth_infrared, const bool is_calc_enabled, const SolarCalcSetting solar_calc_setting, const bool debug) {
  self->conductance_matrix_W_K_ = conductance_matrix_W_K;
  self->radiation_matrix_m2_ = radiation_matrix_m2;
  self->nodes_ = nodes;
  self->heatloads_ = heatloads;
  self->heaters_ = heaters;
  self->heater_controllers_ = heater_controllers;
  self->node_num_ = node_num;
  self->propagation_step_s_ = propagation_step_s;
  self->srp_environment_ = srp_environment;
  self->earth_albedo_ = earth_albedo;
  self->earth_infrared_ = earth_infrared;
  self->is_calc_enabled_ = is_calc_enabled;
  self->solar_calc_setting_ = solar_calc_setting;
  self->debug_ = debug;

  self->propagation_time_s_ = 0;
  if (self->debug_) {
    self->PrintParams();
  }
}
//= s2e::dynamics::thermal::Temperature::Temperature()
void Temperature_Ctor2(Temperature* self) {
  self->node_num_ = 0;
  self->propagation_step_s_ = 0.0;
  self->propagation_time_s_ = 0.0;
  self->solar_calc_setting_ = SolarCalcSetting::kDisable;
  self->is_calc_enabled_ = false;
  self->debug_ = false;
}
//= s2e::dynamics::thermal::Temperature::Propagate leaves=s2e::dynamics::thermal::Temperature::CalcRungeOneStep
void Temperature_Propagate(Temperature* self, const environment::LocalCelestialInformation* local_celestial_information, const double time_end_s) {
  if (!self->is_calc_enabled_) return;
  while (time_end_s - self->propagation_time_s_ - self->propagation_step_s_ > 1.0e-6) {
    self->CalcRungeOneStep(self->propagation_time_s_, self->propagation_step_s_, local_celestial_information, self->node_num_);
    self->propagation_time_s_ += self->propagation_step_s_;
  }
  self->CalcRungeOneStep(self->propagation_time_s_, time_end_s - self->propagation_time_s_, local_celestial_information, self->node_num_);
  self->propagation_time_s_ = time_end_s;
  self->UpdateHeaterStatus();

  if (self->debug_) {
    cout << fixed;
    cout << "Time: " << time_end_s << "  Temp:  ";
    for (auto itr = self->nodes_.begin(); itr != self->nodes_.end(); ++itr) {
      cout << setprecision(4) << itr->GetTemperature_degC() << "  ";
    }
    cout << "SolarR:  ";
    for (auto itr = self->nodes_.begin(); itr != self->nodes_.end(); ++itr) {
      cout << setprecision(4) << itr->GetSolarRadiation_W() << "  ";
    }
    math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
    cout << "SunDir:  ";
    for (size_t i = 0; i < 3; i++) {
      cout << setprecision(3) << sun_direction_b[i] << "  ";
    }
    cout << "ShadowCoefficient:  " << setprecision(4) << self->srp_environment_->GetShadowCoefficient() << "  ";
    cout << "EarthAlbedoR:  ";
    for (auto itr = self->nodes_.begin(); itr != self->nodes_.end(); ++itr) {
      cout << setprecision(4) << itr->GetAlbedoRadiation_W() << "  ";
    }
    cout << "EarthIR:  ";
    for (auto itr = self->nodes_.begin(); itr != self->nodes_.end(); ++itr) {
      cout << setprecision(4) << itr->GetEarthInfraredRadiation_W() << "  ";
    }
    math::Vector<3> earth_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("EARTH").CalcNormalizedVector();
    cout << "EarthDir:  ";
    for (size_t i = 0; i < 3; i++) {
      cout << setprecision(3) << earth_direction_b[i] << "  ";
    }
    cout << "Heatload:  ";
    for (auto itr = self->heatloads_.begin(); itr != self->heatloads_.end(); ++itr) {
      cout << setprecision(3) << itr->GetTotalHeatload_W() << "  ";
    }
    cout << endl;
  }
}
//= s2e::dynamics::thermal::Temperature::CalcRungeOneStep leaves=s2e::dynamics::thermal::Temperature::CalcTemperatureDifferentials
void Temperature_CalcRungeOneStep(Temperature* self, double time_now_s, double time_step_s, const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
  vector<double> temperatures_now_K(node_num);
  for (size_t i = 0; i < node_num; i++) {
    temperatures_now_K[i] = self->nodes_[i].GetTemperature_K();
  }

  vector<double> k1(node_num), k2(node_num), k3(node_num), k4(node_num);
  vector<double> xk2(node_num), xk3(node_num), xk4(node_num);

  k1 = self->CalcTemperatureDifferentials(temperatures_now_K, time_now_s, local_celestial_information, node_num);
  for (size_t i = 0; i < node_num; i++) {
    xk2[i] = temperatures_now_K[i] + (time_step_s / 2.0) * k1[i];
  }

  k2 = self->CalcTemperatureDifferentials(xk2, (time_now_s + time_step_s / 2.0), local_celestial_information, node_num);
  for (size_t i = 0; i < node_num; i++) {
    xk3[i] = temperatures_now_K[i] + (time_step_s / 2.0) * k2[i];
  }

  k3 = self->CalcTemperatureDifferentials(xk3, (time_now_s + time_step_s / 2.0), local_celestial_information, node_num);
  for (size_t i = 0; i < node_num; i++) {
    xk4[i] = temperatures_now_K[i] + time_step_s * k3[i];
  }

  k4 = self->CalcTemperatureDifferentials(xk4, (time_now_s + time_step_s), local_celestial_information, node_num);

  vector<double> temperatures_next_K(node_num);
  for (size_t i = 0; i < node_num; i++) {
    temperatures_next_K[i] = temperatures_now_K[i] + (time_step_s / 6.0) * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
  }

  for (size_t i = 0; i < node_num; i++) {
    self->nodes_[i].SetTemperature_K(temperatures_next_K[i]);
  }
}
//= s2e::dynamics::thermal::Temperature::CalcTemperatureDifferentials
vector<double> Temperature_CalcTemperatureDifferentials(Temperature* self, vector<double> temperatures_K, double t, const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
  // TODO: consider the following unused arguments are really needed
  UNUSED(temperatures_K);

  math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
  vector<double> differentials_K_s(node_num);
  for (size_t i = 0; i < node_num; i++) {
    self->heatloads_[i].SetElapsedTime_s(t);
    math::Vector<3> earth_position_b_m = local_celestial_information->GetPositionFromSpacecraft_b_m("EARTH");
    if (self->nodes_[i].GetNodeType() == NodeType::kDiffusive) {
      double solar_flux_W_m2 = self->srp_environment_->GetPowerDensity_W_m2();
      if (self->solar_calc_setting_ == SolarCalcSetting::kEnable) {
        double solar_radiation_W = self->nodes_[i].CalcSolarRadiation_W(sun_direction_b, solar_flux_W_m2);
        double albedo_radiation_W =
            self->nodes_[i].CalcAlbedoRadiation_W(earth_position_b_m, sun_direction_b, self->earth_albedo_->GetEarthAlbedoRadiationPower_W_m2());
        self->heatloads_[i].SetAlbedoHeatload_W(albedo_radiation_W);
        self->heatloads_[i].SetSolarHeatload_W(solar_radiation_W);
      }
      double earth_InfraredRadiation_W =
          self->nodes_[i].CalcEarthInfraredRadiation_W(earth_position_b_m, self->earth_infrared_->GetEarthInfraredRadiationPower_W_m2());
      self->heatloads_[i].SetEarthInfraredHeatload_W(earth_InfraredRadiation_W);
      double heater_power_W = self->GetHeaterPower_W(i);
      self->heatloads_[i].SetHeaterHeatload_W(heater_power_W);
      self->heatloads_[i].CalcInternalHeatload();
      self->heatloads_[i].UpdateTotalHeatload();
      double total_heatload_W = self->heatloads_[i].GetTotalHeatload_W();  // Total heatload (solar + internal + heater)[W]

      double conductive_heat_input_W = 0;
      double radiative_heat_input_W = 0;
      for (size_t j = 0; j < node_num; j++) {
        conductive_heat_input_W += self->conductance_matrix_W_K_[i][j] * (self->nodes_[j].GetTemperature_K() - self->nodes_[i].GetTemperature_K());
        radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * self->radiation_matrix_m2_[i][j] *
                                  (pow(self->nodes_[j].GetTemperature_K(), 4) - pow(self->nodes_[i].GetTemperature_K(), 4));
      }
      double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
      differentials_K_s[i] = total_heat_input_W / self->nodes_[i].GetCapacity_J_K();
    } else if (self->nodes_[i].GetNodeType() == NodeType::kBoundary) {
      differentials_K_s[i] = 0;
    }
  }
  return differentials_K_s;
}
//= s2e::dynamics::thermal::Temperature::GetHeaterPower_W
double Temperature_GetHeaterPower_W(Temperature* self, size_t node_id) {
  size_t heater_id = self->nodes_[node_id].GetHeaterId();
  double heater_power_W = 0.0;
  if (heater_id > 0) {
    heater_power_W = self->heaters_[heater_id - 1].GetPowerOutput_W();
  }
  return heater_power_W;
}
//= s2e::dynamics::thermal::Temperature::UpdateHeaterStatus
void Temperature_UpdateHeaterStatus(Temperature* self) {
  for (auto itr = self->nodes_.begin(); itr != self->nodes_.end(); ++itr) {
    size_t heater_id = itr->GetHeaterId();
    if (heater_id > 0) {
      double temperature_degC = itr->GetTemperature_degC();
      Heater* p_heater = &self->heaters_[heater_id - 1];
      self->heater_controllers_[heater_id - 1].ControlHeater(p_heater, temperature_degC);
    }
  }
}
//= s2e::dynamics::thermal::Temperature::PrintParams
void Temperature_PrintParams(Temperature* self) {
  cout << "< Print Thermal Parameters >" << endl;
  cout << "IsCalcEnabled: " << self->is_calc_enabled_ << endl;
  cout << "V nodes:" << endl;
  for (auto itr = self->nodes_.begin(); itr != self->nodes_.end(); ++itr) {
    itr->PrintParam();
  }
  cout << "V heaters:" << endl;
  for (auto itr = self->heaters_.begin(); itr != self->heaters_.end(); ++itr) {
    itr->PrintParam();
  }
  cout << std::fixed;
  cout << "Cij:" << endl;
  for (size_t i = 0; i < (self->node_num_); i++) {
    for (size_t j = 0; j < (self->node_num_); j++) {
      cout << std::setprecision(4) << self->conductance_matrix_W_K_[i][j] << "  ";
    }
    cout << endl;
  }
  cout << "Rij:" << endl;
  for (size_t i = 0; i < (self->node_num_); i++) {
    for (size_t j = 0; j < (self->node_num_); j++) {
      cout << std::setprecision(4) << self->radiation_matrix_m2_[i][j] << "  ";
    }
    cout << endl;
  }
  cout << "**************************************" << endl;
}
//= s2e::dynamics::thermal::InitTemperature
Temperature* _InitTemperature(const std::string file_name, const double rk_prop_step_s, const environment::SolarRadiationPressureEnvironment* srp_environment, const environment::EarthAlbedo* earth_albedo, const environment::EarthInfrared* earth_infrared) {
  auto mainIni = setting_file_reader::IniAccess(file_name);

  vector<Node> node_list;
  vector<Heater> heater_list;
  vector<HeaterController> heater_controller_list;
  vector<Heatload> heatload_list;
  vector<vector<double>> conductance_matrix;
  vector<vector<double>> radiation_matrix;
  vector<vector<string>> node_str_list;      // string vector of node property data
  vector<vector<string>> heater_str_list;    // string vector of heater property data
  vector<vector<string>> heatload_str_list;  // string vector of heatload property data
  size_t node_num = 1;
  size_t heatload_num = 1;
  size_t heater_num = 1;

  bool is_calc_enabled = mainIni.ReadEnable("THERMAL", "calculation");
  if (is_calc_enabled == false) {
    // Return here to avoid CSV file reading
    Temperature* temperature;
    temperature = new Temperature();
    return temperature;
  }

  // read ini-file settings
  string file_path = mainIni.ReadString("THERMAL", "thermal_file_directory");
  SolarCalcSetting solar_calc_setting;

  bool is_solar_calc_enabled = mainIni.ReadEnable("THERMAL", "solar_calc_setting");
  if (is_solar_calc_enabled) {
    solar_calc_setting = SolarCalcSetting::kEnable;
  } else {
    solar_calc_setting = SolarCalcSetting::kDisable;
  }

  bool debug = mainIni.ReadEnable("THERMAL", "debug");

  // Read Heatloads from CSV File
  string filepath_heatload = file_path + "heatload.csv";
  setting_file_reader::IniAccess conf_heatload(filepath_heatload);
  conf_heatload.ReadCsvString(heatload_str_list, 100);
  /*since we don't know the number of node_list yet, set node_num=100 temporary.
    Recall that Nodes_num are given to this function only to reserve memory*/

  heatload_num = heatload_str_list.size() - 1;
  auto times_itr = heatload_str_list.begin();  // First Row is Time Data
  for (auto itr = heatload_str_list.begin() + 1; itr != heatload_str_list.end(); ++itr) {
    heatload_list.push_back(InitHeatload(*times_itr, *itr));
  }

  // Read Node Properties from CSV File
  string filepath_node = file_path + "node.csv";
  setting_file_reader::IniAccess conf_node(filepath_node);
  conf_node.ReadCsvString(node_str_list, 100);
  /*since we don't know the number of node_list yet, set node_num=100 temporary.
    Recall that Nodes_num are given to this function only to reserve memory*/

  node_num = node_str_list.size() - 1;                                             // First Row is for Header(not data)
  node_list.reserve(node_num);                                                     // reserve memory
  for (auto itr = node_str_list.begin() + 1; itr != node_str_list.end(); ++itr) {  // first row is for labels
    node_list.push_back(InitNode(*itr));
  }

  assert(node_num == heatload_num);  // Number of nodes and heatload lists must be the same

  // Read Heater Properties from CSV File
  string filepath_heater = file_path + "heaters.csv";
  setting_file_reader::IniAccess conf_heater(filepath_heater);
  conf_heater.ReadCsvString(heater_str_list, 100);
  /*since we don't know the number of heater_list yet, set heater_num=100 temporary.
    Recall that heater_num are given to this function only to reserve memory*/

  heater_num = heater_str_list.size() - 1;  // First Row is for Header(not data)
  heater_list.reserve(heater_num);          // reserve memory
  heater_controller_list.reserve(heater_num);
  for (auto itr = heater_str_list.begin() + 1; itr != heater_str_list.end(); ++itr) {  // first row is for labels
    heater_list.push_back(InitHeater(*itr));
    heater_controller_list.push_back(InitHeaterController(*itr));
  }

  // Read Cij,Rij data from CSV File
  string filepath_cij = file_path + "cij.csv";
  string filepath_rij = file_path + "rij.csv";
  setting_file_reader::IniAccess conf_cij(filepath_cij);
  setting_file_reader::IniAccess conf_rij(filepath_rij);
  conf_cij.ReadCsvDoubleWithHeader(conductance_matrix, node_num, 1, 1);
  conf_rij.ReadCsvDoubleWithHeader(radiation_matrix, node_num, 1, 1);

  assert(conductance_matrix.size() == node_num);                      // Dimension must be same as node_num
  assert(radiation_matrix.size() == node_num);                        // Dimension must be same as node_num
  assert(conductance_matrix.size() == conductance_matrix[0].size());  // Must be square matrix
  assert(radiation_matrix.size() == radiation_matrix[0].size());      // Must be square matrix

  Temperature* temperature;
  temperature = new Temperature(conductance_matrix, radiation_matrix, node_list, heatload_list, heater_list, heater_controller_list, node_num,
                                rk_prop_step_s, srp_environment, earth_albedo, earth_infrared, is_calc_enabled, solar_calc_setting, debug);
  return temperature;
}
}

// ---------------------------------------------------------------- dynamics/thermal/heater.hpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Heater::GetHeaterId
size_t Heater_GetHeaterId(Heater* self) { return self->heater_id_; }
//= s2e::dynamics::thermal::Heater::GetPowerRating_W
double Heater_GetPowerRating_W(Heater* self) { return self->power_rating_W_; }
//= s2e::dynamics::thermal::Heater::GetHeaterStatus
HeaterStatus Heater_GetHeaterStatus(Heater* self) { return self->heater_status_; }
//= s2e::dynamics::thermal::Heater::GetPowerOutput_W
double Heater_GetPowerOutput_W(Heater* self) { return self->power_output_W_; }
}

// ---------------------------------------------------------------- dynamics/thermal/heater_controller.hpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::HeaterController::GetLowerThreshold_degC
double HeaterController_GetLowerThreshold_degC(HeaterController* self) { return self->lower_threshold_degC_; }
//= s2e::dynamics::thermal::HeaterController::GetUpperThreshold_degC
double HeaterController_GetUpperThreshold_degC(HeaterController* self) { return self->upper_threshold_degC_; }
//= s2e::dynamics::thermal::HeaterController::GetLowerThreshold_K
double HeaterController_GetLowerThreshold_K(HeaterController* self) { return environment::degC2K(self->lower_threshold_degC_); }
//= s2e::dynamics::thermal::HeaterController::GetUpperThreshold_K
double HeaterController_GetUpperThreshold_K(HeaterController* self) { return environment::degC2K(self->upper_threshold_degC_); }
//= s2e::dynamics::thermal::HeaterController::SetLowerThreshold
void HeaterController_SetLowerThreshold(HeaterController* self, double lower_threshold_degC) { self->lower_threshold_degC_ = lower_threshold_degC; }
//= s2e::dynamics::thermal::HeaterController::SetUpperThreshold
void HeaterController_SetUpperThreshold(HeaterController* self, double upper_threshold_degC) { self->upper_threshold_degC_ = upper_threshold_degC; }
}

// ---------------------------------------------------------------- dynamics/thermal/heatload.hpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Heatload::UpdateTotalHeatload
void Heatload_UpdateTotalHeatload(Heatload* self) {
    self->total_heatload_W_ = self->solar_heatload_W_ + self->albedo_heatload_W_ + self->earth_infrared_heatload_W_ + self->internal_heatload_W_ + self->heater_heatload_W_;
  }
//= s2e::dynamics::thermal::Heatload::GetSolarHeatload_W
double Heatload_GetSolarHeatload_W(Heatload* self) { return self->solar_heatload_W_; }
//= s2e::dynamics::thermal::Heatload::GetAlbedoHeatload_W
double Heatload_GetAlbedoHeatload_W(Heatload* self) { return self->albedo_heatload_W_; }
//= s2e::dynamics::thermal::Heatload::GetEarthInfraredHeatload_W
double Heatload_GetEarthInfraredHeatload_W(Heatload* self) { return self->earth_infrared_heatload_W_; }
//= s2e::dynamics::thermal::Heatload::GetInternalHeatload_W
double Heatload_GetInternalHeatload_W(Heatload* self) { return self->internal_heatload_W_; }
//= s2e::dynamics::thermal::Heatload::GetHeaterHeatload_W
double Heatload_GetHeaterHeatload_W(Heatload* self) { return self->heater_heatload_W_; }
//= s2e::dynamics::thermal::Heatload::GetTotalHeatload_W
double Heatload_GetTotalHeatload_W(Heatload* self) { return self->total_heatload_W_; }
//= s2e::dynamics::thermal::Heatload::SetInternalHeatload_W
void Heatload_SetInternalHeatload_W(Heatload* self, const double internal_heatload_W) { self->internal_heatload_W_ = internal_heatload_W; }
//= s2e::dynamics::thermal::Heatload::SetSolarHeatload_W
void Heatload_SetSolarHeatload_W(Heatload* self, const double solar_heatload_W) { self->solar_heatload_W_ = solar_heatload_W; }
//= s2e::dynamics::thermal::Heatload::SetAlbedoHeatload_W
void Heatload_SetAlbedoHeatload_W(Heatload* self, const double albedo_heatload_W) { self->albedo_heatload_W_ = albedo_heatload_W; }
//= s2e::dynamics::thermal::Heatload::SetEarthInfraredHeatload_W
void Heatload_SetEarthInfraredHeatload_W(Heatload* self, const double earth_infrared_heatload_W) { self->earth_infrared_heatload_W_ = earth_infrared_heatload_W; }
//= s2e::dynamics::thermal::Heatload::SetHeaterHeatload_W
void Heatload_SetHeaterHeatload_W(Heatload* self, const double heater_heatload_W) { self->heater_heatload_W_ = heater_heatload_W; }
}

// ---------------------------------------------------------------- dynamics/thermal/node.hpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Node::GetNodeId
size_t Node_GetNodeId(Node* self) { return self->node_id_; }
//= s2e::dynamics::thermal::Node::GetNodeName
std::string Node_GetNodeName(Node* self) { return self->node_name_; }
//= s2e::dynamics::thermal::Node::GetHeaterId
size_t Node_GetHeaterId(Node* self) { return self->heater_id_; }
//= s2e::dynamics::thermal::Node::GetTemperature_K
double Node_GetTemperature_K(Node* self) { return self->temperature_K_; }
//= s2e::dynamics::thermal::Node::GetTemperature_degC
double Node_GetTemperature_degC(Node* self) { return environment::K2degC(self->temperature_K_); }
//= s2e::dynamics::thermal::Node::GetCapacity_J_K
double Node_GetCapacity_J_K(Node* self) { return self->capacity_J_K_; }
//= s2e::dynamics::thermal::Node::GetSolarRadiation_W
double Node_GetSolarRadiation_W(Node* self) { return self->solar_radiation_W_; }
//= s2e::dynamics::thermal::Node::GetAlbedoRadiation_W
double Node_GetAlbedoRadiation_W(Node* self) { return self->albedo_radiation_W_; }
//= s2e::dynamics::thermal::Node::GetEarthInfraredRadiation_W
double Node_GetEarthInfraredRadiation_W(Node* self) { return self->earth_infrared_W_; }
//= s2e::dynamics::thermal::Node::GetNodeType
NodeType Node_GetNodeType(Node* self) { return self->node_type_; }
//= s2e::dynamics::thermal::Node::SetTemperature_K
void Node_SetTemperature_K(Node* self, double temperature_K) { self->temperature_K_ = temperature_K; }
}

// ---------------------------------------------------------------- dynamics/thermal/temperature.hpp
namespace s2e::dynamics::thermal::ref {
//= s2e::dynamics::thermal::Temperature::GetNodes
std::vector<Node> Temperature_GetNodes(Temperature* self) { return self->nodes_; }
}
