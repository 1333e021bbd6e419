// Reference specification for C17 (parsed, never compiled to code or run).
#include "base.hpp"
#include <cfloat>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include "math_physics/math/constants.hpp"
#include "math_physics/randomization/global_randomization.hpp"
#include "math_physics/randomization/minimal_standard_linear_congruential_generator.hpp"
#include "math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp"
#include "math_physics/randomization/normal_randomization.hpp"
#include "math_physics/randomization/random_walk.hpp"
#include "math_physics/randomization/random_walk_template_functions.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp"
#include "simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp"
#include "simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp"
#include "simulation/monte_carlo_simulation/simulation_object.hpp"
// ---------------------------------------------------------------- simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::InitializedMonteCarloParameters::InitializedMonteCarloParameters
void InitializedMonteCarloParameters_Ctor(InitializedMonteCarloParameters* self) {
  // Generate object when the first execution
  static bool initial_setup_done = false;
  if (!initial_setup_done) {
    InitializedMonteCarloParameters::SetSeed();
    InitializedMonteCarloParameters::uniform_distribution_ = new std::uniform_real_distribution<>(0.0, 1.0);
    InitializedMonteCarloParameters::normal_distribution_ = new std::normal_distribution<>(0.0, 1.0);
    initial_setup_done = true;
  }

  // No randomization when SetRandomConfiguration is not called（No setting in MCSim.ini）
  self->randomization_type_ = InitializedMonteCarloParameters::kNoRandomization;
}
//= s2e::simulation::InitializedMonteCarloParameters::SetSeed
void InitializedMonteCarloParameters_SetSeed(unsigned long seed, bool is_deterministic) {
  if (is_deterministic) {
    InitializedMonteCarloParameters::mt_.seed(seed);
  } else {
    InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GetRandomizedScalar
void InitializedMonteCarloParameters_GetRandomizedScalar(InitializedMonteCarloParameters* self, double& destination) {
  if (self->randomization_type_ == InitializedMonteCarloParameters::kNoRandomization) {
    ;
  } else if (1 > self->randomized_value_.size()) {
    throw "Too few randomization configuration parameters.";
  } else {
    destination = self->randomized_value_[0];
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GetRandomizedQuaternion
void InitializedMonteCarloParameters_GetRandomizedQuaternion(InitializedMonteCarloParameters* self, math::Quaternion& destination) {
  if (self->randomization_type_ == InitializedMonteCarloParameters::kNoRandomization) {
    ;
  } else if (4 > self->randomized_value_.size()) {
    throw "Too few randomization configuration parameters.";
  } else {
    for (int i = 0; i < 4; i++) {
      destination[i] = self->randomized_value_[i];
    }
  }

  destination.Normalize();
}
//= s2e::simulation::InitializedMonteCarloParameters::Randomize
void InitializedMonteCarloParameters_Randomize(InitializedMonteCarloParameters* self) {
  switch (self->randomization_type_) {
    case InitializedMonteCarloParameters::kNoRandomization:
      self->GenerateNoRandomization();
      break;
    case InitializedMonteCarloParameters::kCartesianUniform:
      self->GenerateCartesianUniform();
      break;
    case InitializedMonteCarloParameters::kCartesianNormal:
      self->GenerateCartesianNormal();
      break;
    case InitializedMonteCarloParameters::kCircularNormalUniform:
      self->GenerateCircularNormalUniform();
      break;
    case InitializedMonteCarloParameters::kCircularNormalNormal:
      self->GenerateCircularNormalNormal();
      break;
    case InitializedMonteCarloParameters::kSphericalNormalUniformUniform:
      self->GenerateSphericalNormalUniformUniform();
      break;
    case InitializedMonteCarloParameters::kSphericalNormalNormal:
      self->GenerateSphericalNormalNormal();
      break;
    case InitializedMonteCarloParameters::kQuaternionUniform:
      self->GenerateQuaternionUniform();
      break;
    case InitializedMonteCarloParameters::kQuaternionNormal:
      self->GenerateQuaternionNormal();
      break;
    default:
      break;
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::Generate1dUniform
double InitializedMonteCarloParameters_Generate1dUniform(double lb, double ub) {
  return lb + (*InitializedMonteCarloParameters::uniform_distribution_)(InitializedMonteCarloParameters::mt_) * (ub - lb);
}
//= s2e::simulation::InitializedMonteCarloParameters::Generate1dNormal
double InitializedMonteCarloParameters_Generate1dNormal(double mean, double std) {
  return mean + (*InitializedMonteCarloParameters::normal_distribution_)(InitializedMonteCarloParameters::mt_) * (std);
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateNoRandomization
void InitializedMonteCarloParameters_GenerateNoRandomization(InitializedMonteCarloParameters* self) { self->randomized_value_.clear(); }
//= s2e::simulation::InitializedMonteCarloParameters::GenerateCartesianUniform
void InitializedMonteCarloParameters_GenerateCartesianUniform(InitializedMonteCarloParameters* self) {
  // Random variables following a uniform distribution in Cartesian frame
  self->randomized_value_.clear();
  for (unsigned int i = 0; i < self->mean_or_min_.size(); i++) {
    self->randomized_value_.push_back(InitializedMonteCarloParameters::Generate1dUniform(self->mean_or_min_[i], self->sigma_or_max_[i]));
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateCartesianNormal
void InitializedMonteCarloParameters_GenerateCartesianNormal(InitializedMonteCarloParameters* self) {
  // Random variables following a normal distribution in Cartesian frame
  self->randomized_value_.clear();
  for (unsigned int i = 0; i < self->mean_or_min_.size(); i++) {
    self->randomized_value_.push_back(InitializedMonteCarloParameters::Generate1dNormal(self->mean_or_min_[i], self->sigma_or_max_[i]));
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::CalcCircularNormalUniform
void InitializedMonteCarloParameters_CalcCircularNormalUniform(InitializedMonteCarloParameters* self, math::Vector<2>& destination, double r_mean, double r_sigma, double theta_min, double theta_max) {
  // r follows normal distribution, and θ follows uniform distribution in Circular frame
  double r = InitializedMonteCarloParameters::Generate1dNormal(r_mean, r_sigma);
  double theta = InitializedMonteCarloParameters::Generate1dUniform(theta_min, theta_max);
  destination[0] = r * cos(theta);
  destination[1] = r * sin(theta);
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateCircularNormalUniform
void InitializedMonteCarloParameters_GenerateCircularNormalUniform(InitializedMonteCarloParameters* self) {
  const static int dim = 2;
  if (self->mean_or_min_.size() < dim || self->sigma_or_max_.size() < dim) {
    throw "Config parameters dimension unmatched.";
  }
  math::Vector<dim> temp_vec;
  self->CalcCircularNormalUniform(temp_vec, self->mean_or_min_[0], self->sigma_or_max_[0], self->mean_or_min_[1], self->sigma_or_max_[1]);

  self->randomized_value_.clear();
  for (int i = 0; i < dim; i++) {
    self->randomized_value_.push_back(temp_vec[i]);
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::CalcCircularNormalNormal
void InitializedMonteCarloParameters_CalcCircularNormalNormal(InitializedMonteCarloParameters* self, math::Vector<2>& destination, double r_mean, double r_sigma, double theta_mean, double theta_sigma) {
  // r and θ follow normal distribution in Circular frame
  double r = InitializedMonteCarloParameters::Generate1dNormal(r_mean, r_sigma);
  double theta = InitializedMonteCarloParameters::Generate1dNormal(theta_mean, theta_sigma);
  destination[0] = r * cos(theta);
  destination[1] = r * sin(theta);
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateCircularNormalNormal
void InitializedMonteCarloParameters_GenerateCircularNormalNormal(InitializedMonteCarloParameters* self) {
  const static int dim = 2;
  if (self->mean_or_min_.size() < dim || self->sigma_or_max_.size() < dim) {
    throw "Config parameters dimension unmatched.";
  }
  math::Vector<dim> temp_vec;
  self->CalcCircularNormalNormal(temp_vec, self->mean_or_min_[0], self->sigma_or_max_[0], self->mean_or_min_[1], self->sigma_or_max_[1]);

  self->randomized_value_.clear();
  for (int i = 0; i < dim; i++) {
    self->randomized_value_.push_back(temp_vec[i]);
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::CalcSphericalNormalUniformUniform
void InitializedMonteCarloParameters_CalcSphericalNormalUniformUniform(InitializedMonteCarloParameters* self, math::Vector<3>& destination, double r_mean, double r_sigma, double theta_min, double theta_max, double phi_min, double phi_max) {
  // r follows normal distribution, and θ and φ follow uniform distribution in Spherical frame
  double r = InitializedMonteCarloParameters::Generate1dNormal(r_mean, r_sigma);
  double theta = acos(cos(theta_min) - (cos(theta_min) - cos(theta_max)) * InitializedMonteCarloParameters::Generate1dUniform(0.0, 1.0));
  double phi = InitializedMonteCarloParameters::Generate1dUniform(phi_min, phi_max);
  destination[0] = r * sin(theta) * cos(phi);
  destination[1] = r * sin(theta) * sin(phi);
  destination[2] = r * cos(theta);
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateSphericalNormalUniformUniform
void InitializedMonteCarloParameters_GenerateSphericalNormalUniformUniform(InitializedMonteCarloParameters* self) {
  const static int dim = 3;
  if (self->mean_or_min_.size() < dim || self->sigma_or_max_.size() < dim) {
    throw "Config parameters dimension unmatched.";
  }
  math::Vector<dim> temp_vec;
  self->CalcSphericalNormalUniformUniform(temp_vec, self->mean_or_min_[0], self->sigma_or_max_[0], self->mean_or_min_[1], self->sigma_or_max_[1], self->mean_or_min_[2],
                                    self->sigma_or_max_[2]);

  self->randomized_value_.clear();
  for (int i = 0; i < dim; i++) {
    self->randomized_value_.push_back(temp_vec[i]);
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::CalcSphericalNormalNormal
void InitializedMonteCarloParameters_CalcSphericalNormalNormal(InitializedMonteCarloParameters* self, math::Vector<3>& destination, const math::Vector<3>& mean_vec) {
  // r and  θ follow normal distribution, and mean vector angle φ follows uniform distribution [0,2*pi]
  math::Vector<3> mean_vec_dir;
  mean_vec_dir = 1.0 / mean_vec.CalcNorm() * mean_vec;  // Unit vector of mean vector direction

  math::Vector<3> x_axis(0.0), y_axis(0.0);
  x_axis[0] = 1.0;
  y_axis[1] = 1.0;
  math::Vector<3> op_x = OuterProduct(mean_vec_dir, x_axis);
  math::Vector<3> op_y = OuterProduct(mean_vec_dir, y_axis);

  // An unit vector perpendicular with the mean vector
  // In case of the mean vector is parallel with X or Y axis, selecting the axis depend on the norm of outer product
  math::Vector<3> normal_unit_vec = op_x.CalcNorm() > op_y.CalcNorm() ? op_x = op_x.CalcNormalizedVector() : op_y = op_y.CalcNormalizedVector();

  double rotation_angle_of_normal_unit_vec = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
  math::Quaternion rotation_of_normal_unit_vec(mean_vec_dir,
                                               -rotation_angle_of_normal_unit_vec);  // Use opposite sign to rotate the vector (not the frame)
  math::Vector<3> rotation_axis = rotation_of_normal_unit_vec.FrameConversion(normal_unit_vec);  // Axis of mean vector rotation

  double rotation_angle_of_mean_vec = InitializedMonteCarloParameters::Generate1dNormal(0.0, self->sigma_or_max_[1]);
  math::Quaternion rotation_of_mean_vec(rotation_axis, -rotation_angle_of_mean_vec);  // Use opposite sign to rotate the vector (not the frame)
  math::Vector<3> ret_vec = rotation_of_mean_vec.FrameConversion(mean_vec_dir);       // Complete calculation of the direction

  ret_vec = InitializedMonteCarloParameters::Generate1dNormal(mean_vec.CalcNorm(), self->sigma_or_max_[0]) * ret_vec;  // multiply norm

  for (int i = 0; i < 3; i++) {
    destination[i] = ret_vec[i];
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateSphericalNormalNormal
void InitializedMonteCarloParameters_GenerateSphericalNormalNormal(InitializedMonteCarloParameters* self) {
  const static int dim = 3;
  if (self->mean_or_min_.size() < dim || self->sigma_or_max_.size() < 2) {
    throw "Config parameters dimension unmatched.";
  }
  math::Vector<dim> temp_vec, temp_mean_vec;
  for (int i = 0; i < dim; i++) {
    temp_mean_vec[i] = self->mean_or_min_[i];
  }
  self->CalcSphericalNormalNormal(temp_vec, temp_mean_vec);

  self->randomized_value_.clear();
  for (int i = 0; i < dim; i++) {
    self->randomized_value_.push_back(temp_vec[i]);
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::CalcQuaternionUniform
void InitializedMonteCarloParameters_CalcQuaternionUniform(InitializedMonteCarloParameters* self, math::Quaternion& destination) {
  // Perfectly Randomized math::Quaternion
  math::Vector<3> x_axis(0.0);
  x_axis[0] = 1.0;

  // A direction vector converted from the X-axis by a quaternion may follows the uniform distribution in full sphere.
  math::Vector<3> x_axis_cnvd;
  double theta = acos(1 - (1 - (-1)) * InitializedMonteCarloParameters::Generate1dUniform(0.0, 1.0));
  double phi = InitializedMonteCarloParameters::Generate1dUniform(0, math::tau);
  x_axis_cnvd[0] = sin(theta) * cos(phi);
  x_axis_cnvd[1] = sin(theta) * sin(phi);
  x_axis_cnvd[2] = cos(theta);

  math::Quaternion first_cnv(x_axis, x_axis_cnvd);

  // Generate randomized rotation angle around the X-axis
  double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
  math::Quaternion second_cnv(x_axis, rotation_angle);

  math::Quaternion ret_q = first_cnv * second_cnv;

  for (int i = 0; i < 4; i++) {
    destination[i] = ret_q[i];
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateQuaternionUniform
void InitializedMonteCarloParameters_GenerateQuaternionUniform(InitializedMonteCarloParameters* self) {
  const static int dim = 4;
  math::Quaternion temp_q;
  self->CalcQuaternionUniform(temp_q);

  self->randomized_value_.clear();
  for (int i = 0; i < dim; i++) {
    self->randomized_value_.push_back(temp_q[i]);
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::CalcQuaternionNormal
void InitializedMonteCarloParameters_CalcQuaternionNormal(InitializedMonteCarloParameters* self, math::Quaternion& destination, double theta_sigma) {
  // Angle from the default quaternion θ follows normal distribution
  // The rotation axis follows uniform distribution on full sphere
  math::Vector<3> rot_axis;
  double theta = acos(1 - (1 - (-1)) * InitializedMonteCarloParameters::Generate1dUniform(0.0, 1.0));
  double phi = InitializedMonteCarloParameters::Generate1dUniform(0, math::tau);
  rot_axis[0] = sin(theta) * cos(phi);
  rot_axis[1] = sin(theta) * sin(phi);
  rot_axis[2] = cos(theta);

  double rotation_angle = InitializedMonteCarloParameters::Generate1dNormal(0.0, theta_sigma);

  math::Quaternion ret_q(rot_axis, rotation_angle);
  for (int i = 0; i < 4; i++) {
    destination[i] = ret_q[i];
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GenerateQuaternionNormal
void InitializedMonteCarloParameters_GenerateQuaternionNormal(InitializedMonteCarloParameters* self) {
  // mean_or_min_[0]: NA   sigma_or_max_[0]: standard deviation of θ [rad]
  const static int dim = 4;
  if (self->sigma_or_max_.size() < 1) {
    throw "Config parameters dimension unmatched.";
  }
  math::Quaternion temp_q;
  self->CalcQuaternionNormal(temp_q, self->sigma_or_max_[0]);

  self->randomized_value_.clear();
  for (int i = 0; i < dim; i++) {
    self->randomized_value_.push_back(temp_q[i]);
  }
}
}

// ---------------------------------------------------------------- simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::InitMonteCarloSimulation
MonteCarloSimulationExecutor* _InitMonteCarloSimulation(std::string file_name) {
  setting_file_reader::IniAccess ini_file(file_name);
  const char* section = "MONTE_CARLO_EXECUTION";

  unsigned long long total_num_of_executions = ini_file.ReadInt(section, "number_of_executions");

  MonteCarloSimulationExecutor* monte_carlo_simulator = new MonteCarloSimulationExecutor(total_num_of_executions);

  bool enable = ini_file.ReadEnable(section, "monte_carlo_enable");
  monte_carlo_simulator->SetEnable(enable);

  bool log_history = ini_file.ReadEnable(section, "log_enable");
  monte_carlo_simulator->SetSaveLogHistoryFlag(log_history);

  section = "MONTE_CARLO_RANDOMIZATION";
  std::vector<std::string> so_dot_ip_str_vec = ini_file.ReadStrVector(section, "parameter");
  std::vector<std::string> so_str_vec, ip_str_vec;

  enum Phase { kFoundNothingYet, kFoundSimulationObjectStr, kFoundInitParameterStr };
  for (auto so_dot_ip_str : so_dot_ip_str_vec) {
    // Divide the string to SimulationObject and InitializedMonteCarloParameters
    Phase phase = kFoundNothingYet;
    std::stringstream ss(so_dot_ip_str);
    std::string item, so_str, ip_str;
    while (getline(ss, item, MonteCarloSimulationExecutor::separator_)) {
      if (!item.empty()) {
        if (phase == kFoundNothingYet) {
          phase = kFoundSimulationObjectStr;
          so_str = item;
          so_str_vec.push_back(so_str);
        } else if (phase == kFoundSimulationObjectStr) {
          phase = kFoundInitParameterStr;
          ip_str = item;
          ip_str_vec.push_back(ip_str);
          break;
        }
      }
    }

    // Read Randomization type
    InitializedMonteCarloParameters::RandomizationType random_type;
    const static unsigned int buf_size = 256;
    char rnd_type_str[buf_size];
    std::string key_name = so_dot_ip_str + MonteCarloSimulationExecutor::separator_ + "randomization_type";

    ini_file.ReadChar(section, key_name.c_str(), buf_size, rnd_type_str);
    if (!strcmp(rnd_type_str, "NoRandomization"))
      random_type = InitializedMonteCarloParameters::kNoRandomization;
    else if (!strcmp(rnd_type_str, "CartesianUniform"))
      random_type = InitializedMonteCarloParameters::kCartesianUniform;
    else if (!strcmp(rnd_type_str, "CartesianNormal"))
      random_type = InitializedMonteCarloParameters::kCartesianNormal;
    else if (!strcmp(rnd_type_str, "CircularNormalUniform"))
      random_type = InitializedMonteCarloParameters::kCircularNormalUniform;
    else if (!strcmp(rnd_type_str, "CircularNormalNormal"))
      random_type = InitializedMonteCarloParameters::kCircularNormalNormal;
    else if (!strcmp(rnd_type_str, "SphericalNormalUniformUniform"))
      random_type = InitializedMonteCarloParameters::kSphericalNormalUniformUniform;
    else if (!strcmp(rnd_type_str, "SphericalNormalNormal"))
      random_type = InitializedMonteCarloParameters::kSphericalNormalNormal;
    else if (!strcmp(rnd_type_str, "QuaternionUniform"))
      random_type = InitializedMonteCarloParameters::kQuaternionUniform;
    else if (!strcmp(rnd_type_str, "QuaternionNormal"))
      random_type = InitializedMonteCarloParameters::kQuaternionNormal;
    else
      random_type = InitializedMonteCarloParameters::kNoRandomization;

    // Read mean_or_min vector
    key_name = so_dot_ip_str + MonteCarloSimulationExecutor::separator_ + "mean_or_min";
    math::Vector<3> mean_or_min;
    ini_file.ReadVector(section, key_name.c_str(), mean_or_min);

    // Read sigma_or_max vector
    key_name = so_dot_ip_str + MonteCarloSimulationExecutor::separator_ + "sigma_or_max";
    math::Vector<3> sigma_or_max;
    ini_file.ReadVector(section, key_name.c_str(), sigma_or_max);

    // Write randomize setting
    monte_carlo_simulator->AddInitializedMonteCarloParameter(so_str, ip_str, mean_or_min, sigma_or_max, random_type);
  }

  return monte_carlo_simulator;
}
}

// ---------------------------------------------------------------- simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::MonteCarloSimulationExecutor::MonteCarloSimulationExecutor
void MonteCarloSimulationExecutor_Ctor(MonteCarloSimulationExecutor* self, unsigned long long total_num_of_executions) {
  self->total_number_of_executions_ = total_num_of_executions;

  self->number_of_executions_done_ = 0;
  self->enabled_ = self->total_number_of_executions_ > 1 ? true : false;
  self->save_log_history_flag_ = !self->enabled_;
}
//= s2e::simulation::MonteCarloSimulationExecutor::WillExecuteNextCase
bool MonteCarloSimulationExecutor_WillExecuteNextCase(MonteCarloSimulationExecutor* self) {
  if (!self->enabled_) {
    return (self->number_of_executions_done_ < 1);
  } else {
    return (self->number_of_executions_done_ < self->total_number_of_executions_);
  }
}
//= s2e::simulation::MonteCarloSimulationExecutor::AtTheBeginningOfEachCase
void MonteCarloSimulationExecutor_AtTheBeginningOfEachCase(MonteCarloSimulationExecutor* self) {
  // Write CSV output of the randomization results
  ;
}
//= s2e::simulation::MonteCarloSimulationExecutor::AtTheEndOfEachCase
void MonteCarloSimulationExecutor_AtTheEndOfEachCase(MonteCarloSimulationExecutor* self) {
  // Write CSV output of the simulation results
  self->number_of_executions_done_++;
}
//= s2e::simulation::MonteCarloSimulationExecutor::GetInitializedMonteCarloParameterDouble
void MonteCarloSimulationExecutor_GetInitializedMonteCarloParameterDouble(MonteCarloSimulationExecutor* self, std::string so_name, std::string init_monte_carlo_parameter_name, double& destination) {
  if (!self->enabled_) return;
  {
    std::string name = so_name + MonteCarloSimulationExecutor::separator_ + init_monte_carlo_parameter_name;
    if (self->init_parameter_list_.find(name) == self->init_parameter_list_.end()) {
      // Not registered in ip_list（Not defined in MCSim.ini）
      return;  // return without any update of destination
    } else {
      self->init_parameter_list_.at(name)->GetRandomizedScalar(destination);  // cannot use operator[] since it is const map
    }
  }
}
//= s2e::simulation::MonteCarloSimulationExecutor::GetInitializedMonteCarloParameterQuaternion
void MonteCarloSimulationExecutor_GetInitializedMonteCarloParameterQuaternion(MonteCarloSimulationExecutor* self, std::string so_name, std::string init_monte_carlo_parameter_name, math::Quaternion& destination) {
  if (!self->enabled_) return;
  {
    std::string name = so_name + MonteCarloSimulationExecutor::separator_ + init_monte_carlo_parameter_name;
    if (self->init_parameter_list_.find(name) == self->init_parameter_list_.end()) {
      // Not registered in ip_list（Not defined in MCSim.ini）
      return;  // return without any update of destination
    } else {
      self->init_parameter_list_.at(name)->GetRandomizedQuaternion(destination);  // cannot use operator[] since it is const map
    }
  }
}
//= s2e::simulation::MonteCarloSimulationExecutor::RandomizeAllParameters
void MonteCarloSimulationExecutor_RandomizeAllParameters(MonteCarloSimulationExecutor* self) {
  for (auto ip : self->init_parameter_list_) {
    ip.second->Randomize();
  }
}
//= s2e::simulation::MonteCarloSimulationExecutor::SetSeed
void MonteCarloSimulationExecutor_SetSeed(unsigned long seed, bool is_deterministic) {
  InitializedMonteCarloParameters::SetSeed(seed, is_deterministic);
}
}

// ---------------------------------------------------------------- simulation/monte_carlo_simulation/simulation_object.cpp
namespace s2e::simulation::ref {
//= s2e::simulation::SimulationObject::SimulationObject
void Ctor_SimulationObject_Ctor(SimulationObject* self, std::string name) {
  self->name_ = name;

  // Check the name is already registered in so_list
  std::map<std::string, SimulationObject*>::iterator itr = SimulationObject::object_list_.find(name);

  if (itr == SimulationObject::object_list_.end()) {
    // Register itself in so_list if it is not registered yet
    SimulationObject::object_list_[name] = self;
  } else {
    // If it is already registered in so_list, throw error. It should be deleted in the finalize phase of previous case.
    // Or there is a possibility that the same name SimulationObjects are registered in the list.
    throw "SimulationObject already defined. You may have forgotten to delete me in the previous simulation case, or defined two SimulationObjects with the same name.";
  }
}
//= s2e::simulation::SimulationObject::SetAllParameters
void SimulationObject_SetAllParameters(const MonteCarloSimulationExecutor& monte_carlo_simulator) {
  for (auto so : SimulationObject::object_list_) {
    so.second->SetParameters(monte_carlo_simulator);
  }
}
//= s2e::simulation::SimulationObject::GetInitializedMonteCarloParameterDouble
void SimulationObject_GetInitializedMonteCarloParameterDouble(SimulationObject* self, const MonteCarloSimulationExecutor& monte_carlo_simulator, std::string init_monte_carlo_parameter_name, double& destination) {
  monte_carlo_simulator.GetInitializedMonteCarloParameterDouble(self->name_, init_monte_carlo_parameter_name, destination);
}
//= s2e::simulation::SimulationObject::GetInitializedMonteCarloParameterQuaternion
void SimulationObject_GetInitializedMonteCarloParameterQuaternion(SimulationObject* self, const MonteCarloSimulationExecutor& monte_carlo_simulator, std::string init_monte_carlo_parameter_name, math::Quaternion& destination) {
  monte_carlo_simulator.GetInitializedMonteCarloParameterQuaternion(self->name_, init_monte_carlo_parameter_name, destination);
}
}

// ---------------------------------------------------------------- simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp
namespace s2e::simulation::ref {
//= s2e::simulation::InitializedMonteCarloParameters::SetRandomConfiguration
void InitializedMonteCarloParameters_SetRandomConfiguration(InitializedMonteCarloParameters* self, const math::Vector<3>& mean_or_min, const math::Vector<3>& sigma_or_max, InitializedMonteCarloParameters::RandomizationType random_type) {
  self->randomization_type_ = random_type;
  self->mean_or_min_.clear();
  for (size_t i = 0; i < 3; i++) {
    self->mean_or_min_.push_back(mean_or_min[i]);
  }
  self->sigma_or_max_.clear();
  for (size_t i = 0; i < 3; i++) {
    self->sigma_or_max_.push_back(sigma_or_max[i]);
  }
}
//= s2e::simulation::InitializedMonteCarloParameters::GetRandomizedVector
void InitializedMonteCarloParameters_GetRandomizedVector(InitializedMonteCarloParameters* self, math::Vector<3>& destination) {
  if (self->randomization_type_ == InitializedMonteCarloParameters::kNoRandomization) {
    ;
  } else if (3 > self->randomized_value_.size()) {
    throw "Too few randomization configuration parameters.";
  } else {
    for (size_t i = 0; i < 3; i++) {
      destination[i] = self->randomized_value_[i];
    }
  }
}
}

// ---------------------------------------------------------------- simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp
namespace s2e::simulation::ref {
//= s2e::simulation::MonteCarloSimulationExecutor::SetEnable
void MonteCarloSimulationExecutor_SetEnable(MonteCarloSimulationExecutor* self, bool enabled) { self->enabled_ = enabled; }
//= s2e::simulation::MonteCarloSimulationExecutor::SetTotalNumberOfExecutions
void MonteCarloSimulationExecutor_SetTotalNumberOfExecutions(MonteCarloSimulationExecutor* self, unsigned long long number_of_executions) { self->total_number_of_executions_ = number_of_executions; }
//= s2e::simulation::MonteCarloSimulationExecutor::SetSaveLogHistoryFlag
void MonteCarloSimulationExecutor_SetSaveLogHistoryFlag(MonteCarloSimulationExecutor* self, bool set) { self->save_log_history_flag_ = set; }
//= s2e::simulation::MonteCarloSimulationExecutor::IsEnabled
bool MonteCarloSimulationExecutor_IsEnabled(MonteCarloSimulationExecutor* self) { return self->enabled_; }
//= s2e::simulation::MonteCarloSimulationExecutor::GetTotalNumberOfExecutions
unsigned long long MonteCarloSimulationExecutor_GetTotalNumberOfExecutions(MonteCarloSimulationExecutor* self) { return self->total_number_of_executions_; }
//= s2e::simulation::MonteCarloSimulationExecutor::GetNumberOfExecutionsDone
unsigned long long MonteCarloSimulationExecutor_GetNumberOfExecutionsDone(MonteCarloSimulationExecutor* self) { return self->number_of_executions_done_; }
//= s2e::simulation::MonteCarloSimulationExecutor::GetSaveLogHistoryFlag
bool MonteCarloSimulationExecutor_GetSaveLogHistoryFlag(MonteCarloSimulationExecutor* self) {
    // Save log if MCSim is disabled or GetSaveLogHistoryFlag=ENABLED
    return (!self->enabled_ || self->save_log_history_flag_);
  }
//= s2e::simulation::MonteCarloSimulationExecutor::GetInitializedMonteCarloParameterVector
void MonteCarloSimulationExecutor_GetInitializedMonteCarloParameterVector(MonteCarloSimulationExecutor* self, std::string so_name, std::string init_monte_carlo_parameter_name, math::Vector<3>& destination) {
  if (!self->enabled_) return;
  std::string name = so_name + MonteCarloSimulationExecutor::separator_ + init_monte_carlo_parameter_name;
  if (self->init_parameter_list_.find(name) == self->init_parameter_list_.end()) {
    // Not registered in ip_list（Not defined in MCSim.ini）
    return;  // return without update the destination
  } else {
    self->init_parameter_list_.at(name)->GetRandomizedVector(destination);  // cannot use operator[] since it is const map
  }
}
//= s2e::simulation::MonteCarloSimulationExecutor::AddInitializedMonteCarloParameter
void MonteCarloSimulationExecutor_AddInitializedMonteCarloParameter(MonteCarloSimulationExecutor* self, std::string so_name, std::string init_monte_carlo_parameter_name, const math::Vector<3>& mean_or_min, const math::Vector<3>& sigma_or_max, InitializedMonteCarloParameters::RandomizationType random_type) {
  std::string name = so_name + MonteCarloSimulationExecutor::separator_ + init_monte_carlo_parameter_name;
  if (self->init_parameter_list_.find(name) == self->init_parameter_list_.end()) {
    // Register the parameter in ip_list if it is not registered yet
    auto newparam = new InitializedMonteCarloParameters();
    newparam->SetRandomConfiguration(mean_or_min, sigma_or_max, random_type);
    self->init_parameter_list_[name] = newparam;
  } else {
    // Throw error if the parameter is already registered
    throw "More than one definition of one InitializedMonteCarloParameters.";
  }
}
}

// ---------------------------------------------------------------- simulation/monte_carlo_simulation/simulation_object.hpp
namespace s2e::simulation::ref {
//= s2e::simulation::SimulationObject::GetInitializedMonteCarloParameterVector
void SimulationObject_GetInitializedMonteCarloParameterVector(SimulationObject* self, const MonteCarloSimulationExecutor& monte_carlo_simulator, std::string init_monte_carlo_parameter_name, math::Vector<3>& destination) {
  monte_carlo_simulator.GetInitializedMonteCarloParameterVector(self->name_, init_monte_carlo_parameter_name, destination);
}
}

// ---------------------------------------------------------------- math_physics/randomization/global_randomization.cpp
namespace s2e::randomization::ref {
//= s2e::randomization::GlobalRandomization::GlobalRandomization
void GlobalRandomization_Ctor(GlobalRandomization* self) { self->seed_ = 0xdeadbeef; }
//= s2e::randomization::GlobalRandomization::SetSeed
void GlobalRandomization_SetSeed(GlobalRandomization* self, const long seed) {
  self->base_randomizer_.Initialize(seed);
  // double dl = base_randomizer_;
}
//= s2e::randomization::GlobalRandomization::MakeSeed leaves=s2e::randomization::MinimalStandardLcgWithShuffle::operator~double
long GlobalRandomization_MakeSeed(GlobalRandomization* self) {
  double rand = self->base_randomizer_;
  long seed = (long)((rand - 0.5) * GlobalRandomization::kMaxSeed);
  if (seed == 0) {
    seed = 0xdeadbeef;
  }
  return seed;
}
}

// ---------------------------------------------------------------- math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
namespace s2e::randomization::ref {
//= s2e::randomization::MinimalStandardLcg::MinimalStandardLcg()
void MinimalStandardLcg_Ctor(MinimalStandardLcg* self) {
  self->seed_ = 0xdeadbeef;
}
//= s2e::randomization::MinimalStandardLcg::MinimalStandardLcg(constlong)
void MinimalStandardLcg_Ctor2(MinimalStandardLcg* self, const long seed) {
  self->seed_ = seed;

  if (seed == 0) {
    throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
  }
}
//= s2e::randomization::MinimalStandardLcg::Initialize
void MinimalStandardLcg_Initialize(MinimalStandardLcg* self, const long seed) {
  if (seed == 0) {
    throw std::invalid_argument("MinimalStandardLcg:: seed is 0.");
  }
  self->seed_ = seed;
}
//= s2e::randomization::MinimalStandardLcg::operator_double
double MinimalStandardLcg_operator_double(MinimalStandardLcg* self) {
  long k = self->seed_ / MinimalStandardLcg::q_;
  self->seed_ = MinimalStandardLcg::kA * (self->seed_ - k * MinimalStandardLcg::q_) - MinimalStandardLcg::r_ * k;
  if (self->seed_ < 0) {
    self->seed_ += MinimalStandardLcg::kM;
  }
  return MinimalStandardLcg::a_m_ * self->seed_;
}
}

// ---------------------------------------------------------------- math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
namespace s2e::randomization::ref {
//= s2e::randomization::MinimalStandardLcgWithShuffle::MinimalStandardLcgWithShuffle()
void MinimalStandardLcgWithShuffle_Ctor(MinimalStandardLcgWithShuffle* self) {
  self->table_position_ = 0;
 self->Initialize(); }
//= s2e::randomization::MinimalStandardLcgWithShuffle::MinimalStandardLcgWithShuffle(constlong)
void MinimalStandardLcgWithShuffle_Ctor2(MinimalStandardLcgWithShuffle* self, const long seed) {
  self->minimal_lcg_ = MinimalStandardLcg(seed);
  self->table_position_ = 0;
 self->Initialize(); }
//= s2e::randomization::MinimalStandardLcgWithShuffle::InitSeed
void MinimalStandardLcgWithShuffle_InitSeed(MinimalStandardLcgWithShuffle* self, const long seed) {
  self->minimal_lcg_.Initialize(seed);
  self->Initialize();
}
//= s2e::randomization::MinimalStandardLcgWithShuffle::Initialize
void MinimalStandardLcgWithShuffle_Initialize(MinimalStandardLcgWithShuffle* self) {
  // Warmup of minimal_lcg_
  for (int i = 0; i < 8; i++) {
    double temp = self->minimal_lcg_;
    static_cast<void>(temp);
  }
  // Fill mixing table
  for (size_t i = 0; i < MinimalStandardLcgWithShuffle::kTableSize; i++) {
    self->mixing_table_[i] = self->minimal_lcg_;
  }
}
//= s2e::randomization::MinimalStandardLcgWithShuffle::operator_double
double MinimalStandardLcgWithShuffle_operator_double(MinimalStandardLcgWithShuffle* self) {
  double out = self->mixing_table_[self->table_position_];
  self->mixing_table_[self->table_position_] = self->minimal_lcg_;  // Compensate next random value
  self->table_position_ = (size_t)(out * MinimalStandardLcg::kM);
  self->table_position_ %= MinimalStandardLcgWithShuffle::kTableSize;  // y <- [0 : kTableSize-1]

  return out;
}
}

// ---------------------------------------------------------------- math_physics/randomization/normal_randomization.cpp
namespace s2e::randomization::ref {
//= s2e::randomization::NormalRand::NormalRand()
void NormalRand_Ctor(NormalRand* self) {
  self->average_ = 0.0;
  self->standard_deviation_ = 1.0;
  self->holder_ = 0.0;
  self->is_empty_ = true;
}
//= s2e::randomization::NormalRand::NormalRand(double,double)
void NormalRand_Ctor2(NormalRand* self, double average, double standard_deviation) {
  self->average_ = average;
  self->standard_deviation_ = standard_deviation;
  self->holder_ = 0.0;
  self->is_empty_ = true;
}
//= s2e::randomization::NormalRand::NormalRand(double,double,long)
void NormalRand_Ctor3(NormalRand* self, double average, double standard_deviation, long seed) {
  self->average_ = average;
  self->standard_deviation_ = standard_deviation;
  self->randomizer_ = MinimalStandardLcgWithShuffle(seed);
  self->holder_ = 0.0;
  self->is_empty_ = true;
}
//= s2e::randomization::NormalRand::operator_double leaves=s2e::randomization::MinimalStandardLcgWithShuffle::operator~double
double NormalRand_operator_double(NormalRand* self) {
  if (self->is_empty_) {
    double v1, v2, rsq;
    do {
      v1 = 2.0 * double(self->randomizer_) - 1.0;
      v2 = 2.0 * self->randomizer_ - 1.0;
      rsq = v1 * v1 + v2 * v2;
    } while (rsq >= 1.0 || rsq < DBL_EPSILON);
    double fac = std::sqrt(-2.0 * std::log(rsq) / rsq);

    self->holder_ = v1 * fac;
    self->is_empty_ = false;

    return v2 * fac * self->standard_deviation_ + self->average_;
  } else {
    self->is_empty_ = true;
    return self->holder_ * self->standard_deviation_ + self->average_;
  }
}
}

// ---------------------------------------------------------------- math_physics/randomization/normal_randomization.hpp
namespace s2e::randomization::ref {
//= s2e::randomization::NormalRand::GetAverage
double NormalRand_GetAverage(NormalRand* self) { return self->average_; }
//= s2e::randomization::NormalRand::GetStandardDeviation
double NormalRand_GetStandardDeviation(NormalRand* self) { return self->standard_deviation_; }
//= s2e::randomization::NormalRand::SetAverage
void NormalRand_SetAverage(NormalRand* self, const double average) { self->average_ = average; }
//= s2e::randomization::NormalRand::SetStandardDeviation
void NormalRand_SetStandardDeviation(NormalRand* self, const double standard_deviation) { self->standard_deviation_ = standard_deviation; }
//= s2e::randomization::NormalRand::SetParameters(constdouble,constdouble)
void NormalRand_SetParameters(NormalRand* self, const double average, const double standard_deviation) {
    self->average_ = average;
    self->standard_deviation_ = standard_deviation;
  }
//= s2e::randomization::NormalRand::SetParameters(constdouble,constdouble,constlong)
void NormalRand_SetParameters2(NormalRand* self, const double average, const double standard_deviation, const long seed) {
    self->average_ = average;
    self->standard_deviation_ = standard_deviation;
    self->randomizer_.InitSeed(seed);
  }
}

// ---------------------------------------------------------------- math_physics/randomization/random_walk_template_functions.hpp
namespace s2e::randomization::ref {
//= s2e::randomization::RandomWalk<3>::RandomWalk leaves=s2e::randomization::GlobalRandomization::MakeSeed
void RandomWalk_Ctor(RandomWalk<3>* self, double step_width_s, const math::Vector<3>& standard_deviation, const math::Vector<3>& limit) {
  OrdinaryDifferentialEquation_Ctor<3>(self, step_width_s);
  self->limit_ = limit;
  for (size_t i = 0; i < 3; ++i) self->normal_randomizer_[i].SetParameters(0.0, standard_deviation[i], global_randomization.MakeSeed());
}
//= s2e::randomization::RandomWalk<3>::DerivativeFunction leaves=s2e::randomization::NormalRand::operator~double
void RandomWalk_DerivativeFunction(RandomWalk<3>* self, double x, const math::Vector<3>& state, math::Vector<3>& rhs) {
  for (size_t i = 0; i < 3; ++i) {
    const double noise = self->normal_randomizer_[i];
    if (state[i] > self->limit_[i])
      rhs[i] = -fabs(noise);
    else if (state[i] < -self->limit_[i])
      rhs[i] = fabs(noise);
    else
      rhs[i] = noise;
  }
}
}  // namespace s2e::randomization::ref
