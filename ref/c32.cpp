// Reference specification for C32 (parsed, never compiled to code or run).
#include "base.hpp"
#include "math_physics/math/vector.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "simulation/spacecraft/structure/initialize_structure.hpp"
#include "simulation/spacecraft/structure/kinematics_parameters.hpp"
#include "simulation/spacecraft/structure/residual_magnetic_moment.hpp"
#include "simulation/spacecraft/structure/structure.hpp"
#include "simulation/spacecraft/structure/surface.hpp"
// ---------------------------------------------------------------- simulation/spacecraft/structure/initialize_structure.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::InitKinematicsParameters
KinematicsParameters _InitKinematicsParameters(std::string file_name) {
  auto conf = setting_file_reader::IniAccess(file_name);
  const char* section = "KINEMATIC_PARAMETERS";

  math::Vector<3> center_of_gravity_b_m;
  conf.ReadVector(section, "center_of_gravity_b_m", center_of_gravity_b_m);
  double mass_kg = conf.ReadDouble(section, "mass_kg");
  math::Vector<9> inertia_vec;
  math::Matrix<3, 3> inertia_tensor_b_kgm2;
  conf.ReadVector(section, "inertia_tensor_kgm2", inertia_vec);
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {
      inertia_tensor_b_kgm2[i][j] = inertia_vec[i * 3 + j];
    }
  }

  KinematicsParameters kinematics_params(center_of_gravity_b_m, mass_kg, inertia_tensor_b_kgm2);
  return kinematics_params;
}
#define MIN_VAL 1e-6
//= s2e::spacecraft::InitSurfaces
std::vector<spacecraft::Surface> _InitSurfaces(std::string file_name) {
  using std::cout;

  auto conf = setting_file_reader::IniAccess(file_name);
  const char* section = "SURFACES";

  const int num_surface = conf.ReadInt(section, "number_of_surfaces");
  std::vector<spacecraft::Surface> surfaces;

  for (int i = 0; i < num_surface; i++) {
    std::string idx = std::to_string(i);
    idx = "_" + idx;
    std::string keyword;

    keyword = "area" + idx + "_m2";
    double area = conf.ReadDouble(section, keyword.c_str());
    if (area < -MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": smaller than 0.0\n";
      break;
    }

    keyword = "reflectivity" + idx;
    double ref = conf.ReadDouble(section, keyword.c_str());
    if (ref < -MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": smaller than 0.0\n";
      break;
    } else if (ref > 1.0 + MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": larger than 1.0\n";
      break;
    }

    keyword = "specularity" + idx;
    double spe = conf.ReadDouble(section, keyword.c_str());
    if (spe < -MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": smaller than 0.0\n";
      break;
    } else if (spe > 1.0 + MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": larger than 0.0\n";
      break;
    }

    keyword = "air_specularity" + idx;
    double air_spe = conf.ReadDouble(section, keyword.c_str());
    if (air_spe < -MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": smaller than 0.0\n";
      break;
    } else if (air_spe > 1.0 + MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Error! " << keyword << ": larger than 0.0\n";
      break;
    }

    math::Vector<3> position, normal;
    keyword = "position" + idx + "_b_m";
    conf.ReadVector(section, keyword.c_str(), position);

    keyword = "normal_vector" + idx + "_b";
    conf.ReadVector(section, keyword.c_str(), normal);
    if (normal.CalcNorm() > 1.0 + MIN_VAL)  // Fixme: magic word
    {
      cout << "Surface Warning! " << keyword << ": norm is larger than 1.0.";
      cout << "The vector is normalized.\n";
      normal = normal.CalcNormalizedVector();
    }

    // Add a surface
    surfaces.push_back(spacecraft::Surface(position, normal, area, ref, spe, air_spe));
  }
  return surfaces;
}
//= s2e::spacecraft::InitResidualMagneticMoment
ResidualMagneticMoment _InitResidualMagneticMoment(std::string file_name) {
  auto conf = setting_file_reader::IniAccess(file_name);
  const char* section = "RESIDUAL_MAGNETIC_MOMENT";

  math::Vector<3> rmm_const_b;
  conf.ReadVector(section, "rmm_constant_b_Am2", rmm_const_b);
  double rmm_rwdev = conf.ReadDouble(section, "rmm_random_walk_speed_Am2");
  double random_walk_limit_Am2 = conf.ReadDouble(section, "rmm_random_walk_limit_Am2");
  double random_noise_standard_deviation_Am2 = conf.ReadDouble(section, "rmm_white_noise_standard_deviation_Am2");

  ResidualMagneticMoment rmm_params(rmm_const_b, rmm_rwdev, random_walk_limit_Am2, random_noise_standard_deviation_Am2);
  return rmm_params;
}
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/kinematics_parameters.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::KinematicsParameters::KinematicsParameters
void KinematicsParameters_Ctor(KinematicsParameters* self, math::Vector<3> center_of_gravity_b_m, double mass_kg, math::Matrix<3, 3> inertia_tensor_b_kgm2) {
  self->center_of_gravity_b_m_ = center_of_gravity_b_m;
  self->mass_kg_ = mass_kg;
  self->inertia_tensor_b_kgm2_ = inertia_tensor_b_kgm2;
}
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/residual_magnetic_moment.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::ResidualMagneticMoment::ResidualMagneticMoment
void ResidualMagneticMoment_Ctor(ResidualMagneticMoment* self, const math::Vector<3> constant_value_b_Am2_, const double random_walk_standard_deviation_Am2, const double random_walk_limit_Am2, const double random_noise_standard_deviation_Am2) {
  self->constant_value_b_Am2_ = constant_value_b_Am2_;
  self->random_walk_standard_deviation_Am2_ = random_walk_standard_deviation_Am2;
  self->random_walk_limit_Am2_ = random_walk_limit_Am2;
  self->random_noise_standard_deviation_Am2_ = random_noise_standard_deviation_Am2;
}
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/structure.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Structure::Structure
void Structure_Ctor(Structure* self, const simulation::SimulationConfiguration* simulation_configuration, const int spacecraft_id) {
  self->Initialize(simulation_configuration, spacecraft_id);
}
//= s2e::spacecraft::Structure::Initialize
void Structure_Initialize(Structure* self, const simulation::SimulationConfiguration* simulation_configuration, const int spacecraft_id) {
  // Read file name
  setting_file_reader::IniAccess conf = setting_file_reader::IniAccess(simulation_configuration->spacecraft_file_list_[spacecraft_id]);
  std::string ini_fname = conf.ReadString("SETTING_FILES", "structure_file");
  // Save ini file
  simulation_configuration->main_logger_->CopyFileToLogDirectory(ini_fname);
  // Initialize
  self->kinematics_parameters_ = new KinematicsParameters(InitKinematicsParameters(ini_fname));
  self->surfaces_ = InitSurfaces(ini_fname);
  self->residual_magnetic_moment_ = new ResidualMagneticMoment(InitResidualMagneticMoment(ini_fname));
}
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/surface.cpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Surface::Surface
void Surface_Ctor(Surface* self, const math::Vector<3> position_b_m, const math::Vector<3> normal_b, const double area_m2, const double reflectivity, const double specularity, const double air_specularity) {
  self->position_b_m_ = position_b_m;
  self->normal_b_ = normal_b;
  self->area_m2_ = area_m2;
  self->reflectivity_ = reflectivity;
  self->specularity_ = specularity;
  self->air_specularity_ = air_specularity;
}
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/kinematics_parameters.hpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::KinematicsParameters::GetCenterOfGravity_b_m
math::Vector<3>& KinematicsParameters_GetCenterOfGravity_b_m(KinematicsParameters* self) { return self->center_of_gravity_b_m_; }
//= s2e::spacecraft::KinematicsParameters::GetMass_kg
double& KinematicsParameters_GetMass_kg(KinematicsParameters* self) { return self->mass_kg_; }
//= s2e::spacecraft::KinematicsParameters::GetInertiaTensor_b_kgm2
math::Matrix<3, 3>& KinematicsParameters_GetInertiaTensor_b_kgm2(KinematicsParameters* self) { return self->inertia_tensor_b_kgm2_; }
//= s2e::spacecraft::KinematicsParameters::SetCenterOfGravityVector_b_m
void KinematicsParameters_SetCenterOfGravityVector_b_m(KinematicsParameters* self, const math::Vector<3> center_of_gravity_vector_b_m) {
    self->center_of_gravity_b_m_ = center_of_gravity_vector_b_m;
  }
//= s2e::spacecraft::KinematicsParameters::SetMass_kg
void KinematicsParameters_SetMass_kg(KinematicsParameters* self, const double mass_kg) {
    if (mass_kg > 0.0) self->mass_kg_ = mass_kg;
  }
//= s2e::spacecraft::KinematicsParameters::AddMass_kg
void KinematicsParameters_AddMass_kg(KinematicsParameters* self, const double mass_kg) {
    double temp_mass_kg = self->mass_kg_ + mass_kg;
    self->SetMass_kg(temp_mass_kg);
  }
//= s2e::spacecraft::KinematicsParameters::SetInertiaTensor_b_kgm2
void KinematicsParameters_SetInertiaTensor_b_kgm2(KinematicsParameters* self, const math::Matrix<3, 3> inertia_tensor_b_kgm2) {
    // TODO add assertion check
    self->inertia_tensor_b_kgm2_ = inertia_tensor_b_kgm2;
  }
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/residual_magnetic_moment.hpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::ResidualMagneticMoment::GetConstantValue_b_Am2
math::Vector<3>& ResidualMagneticMoment_GetConstantValue_b_Am2(ResidualMagneticMoment* self) { return self->constant_value_b_Am2_; }
//= s2e::spacecraft::ResidualMagneticMoment::GetRandomWalkStandardDeviation_Am2
double& ResidualMagneticMoment_GetRandomWalkStandardDeviation_Am2(ResidualMagneticMoment* self) { return self->random_walk_standard_deviation_Am2_; }
//= s2e::spacecraft::ResidualMagneticMoment::GetRandomWalkLimit_Am2
double& ResidualMagneticMoment_GetRandomWalkLimit_Am2(ResidualMagneticMoment* self) { return self->random_walk_limit_Am2_; }
//= s2e::spacecraft::ResidualMagneticMoment::GetRandomNoiseStandardDeviation_Am2
double& ResidualMagneticMoment_GetRandomNoiseStandardDeviation_Am2(ResidualMagneticMoment* self) { return self->random_noise_standard_deviation_Am2_; }
//= s2e::spacecraft::ResidualMagneticMoment::SetRmmConstant_b_Am2
void ResidualMagneticMoment_SetRmmConstant_b_Am2(ResidualMagneticMoment* self, const math::Vector<3> rmm_const_b_Am2) { self->constant_value_b_Am2_ = rmm_const_b_Am2; }
//= s2e::spacecraft::ResidualMagneticMoment::AddRmmConstant_b_Am2
void ResidualMagneticMoment_AddRmmConstant_b_Am2(ResidualMagneticMoment* self, const math::Vector<3> rmm_const_b_Am2) { self->constant_value_b_Am2_ += rmm_const_b_Am2; }
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/structure.hpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Structure::GetSurfaces
std::vector<Surface>& Structure_GetSurfaces(Structure* self) { return self->surfaces_; }
//= s2e::spacecraft::Structure::GetKinematicsParameters
KinematicsParameters& Structure_GetKinematicsParameters(Structure* self) { return *self->kinematics_parameters_; }
//= s2e::spacecraft::Structure::GetResidualMagneticMoment
ResidualMagneticMoment& Structure_GetResidualMagneticMoment(Structure* self) { return *self->residual_magnetic_moment_; }
//= s2e::spacecraft::Structure::GetToSetSurfaces
std::vector<Surface>& Structure_GetToSetSurfaces(Structure* self) { return self->surfaces_; }
//= s2e::spacecraft::Structure::GetToSetKinematicsParameters
KinematicsParameters& Structure_GetToSetKinematicsParameters(Structure* self) { return *self->kinematics_parameters_; }
//= s2e::spacecraft::Structure::GetToSetResidualMagneticMoment
ResidualMagneticMoment& Structure_GetToSetResidualMagneticMoment(Structure* self) { return *self->residual_magnetic_moment_; }
}

// ---------------------------------------------------------------- simulation/spacecraft/structure/surface.hpp
namespace s2e::spacecraft::ref {
//= s2e::spacecraft::Surface::GetPosition_b_m
math::Vector<3>& Surface_GetPosition_b_m(Surface* self) { return self->position_b_m_; }
//= s2e::spacecraft::Surface::GetNormal_b
math::Vector<3>& Surface_GetNormal_b(Surface* self) { return self->normal_b_; }
//= s2e::spacecraft::Surface::GetArea_m2
double& Surface_GetArea_m2(Surface* self) { return self->area_m2_; }
//= s2e::spacecraft::Surface::GetReflectivity
double& Surface_GetReflectivity(Surface* self) { return self->reflectivity_; }
//= s2e::spacecraft::Surface::GetSpecularity
double& Surface_GetSpecularity(Surface* self) { return self->specularity_; }
//= s2e::spacecraft::Surface::GetAirSpecularity
double& Surface_GetAirSpecularity(Surface* self) { return self->air_specularity_; }
//= s2e::spacecraft::Surface::SetPosition_b_m
void Surface_SetPosition_b_m(Surface* self, const math::Vector<3> position_b_m) { self->position_b_m_ = position_b_m; }
//= s2e::spacecraft::Surface::SetNormal_b
void Surface_SetNormal_b(Surface* self, const math::Vector<3> normal_b) { self->normal_b_ = normal_b.CalcNormalizedVector(); }
//= s2e::spacecraft::Surface::SetArea_m2
void Surface_SetArea_m2(Surface* self, const double area_m2) {
    if (area_m2 > 0.0) self->area_m2_ = area_m2;
  }
//= s2e::spacecraft::Surface::SetReflectivity
void Surface_SetReflectivity(Surface* self, const double reflectivity) {
    if (reflectivity >= 0.0 && reflectivity <= 1.0) self->reflectivity_ = reflectivity;
  }
//= s2e::spacecraft::Surface::SetSpecularity
void Surface_SetSpecularity(Surface* self, const double specularity) {
    if (specularity >= 0.0 && specularity <= 1.0) self->specularity_ = specularity;
  }
//= s2e::spacecraft::Surface::SetAirSpecularity
void Surface_SetAirSpecularity(Surface* self, const double air_specularity) {
    if (air_specularity >= 0.0 && air_specularity <= 1.0) self->air_specularity_ = air_specularity;
  }
}
