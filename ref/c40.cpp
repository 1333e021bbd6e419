// Reference specification for C40 (parsed, never compiled to code or run).
#include "base.hpp"
#include <cassert>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include "math_physics/control_utilities/first_order_lag.hpp"
#include "math_physics/math/constants.hpp"
#include "math_physics/math/interpolation.hpp"
#include "math_physics/math/matrix.hpp"
#include "math_physics/math/matrix_template_functions.hpp"
#include "math_physics/math/matrix_vector.hpp"
#include "math_physics/math/matrix_vector_template_functions.hpp"
#include "math_physics/math/ordinary_differential_equation.hpp"
#include "math_physics/math/ordinary_differential_equation_template_functions.hpp"
#include "math_physics/math/quaternion.hpp"
#include "math_physics/math/s2e_math.hpp"
#include "math_physics/math/vector.hpp"
#include "math_physics/math/vector_template_functions.hpp"
#include "math_physics/numerical_integration/dormand_prince_5.hpp"
#include "math_physics/numerical_integration/dormand_prince_5_implementation.hpp"
#include "math_physics/numerical_integration/embedded_runge_kutta.hpp"
#include "math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp"
#include "math_physics/numerical_integration/interface_ode.hpp"
#include "math_physics/numerical_integration/numerical_integrator.hpp"
#include "math_physics/numerical_integration/numerical_integrator_manager.hpp"
#include "math_physics/numerical_integration/runge_kutta.hpp"
#include "math_physics/numerical_integration/runge_kutta_4.hpp"
#include "math_physics/numerical_integration/runge_kutta_fehlberg.hpp"
#include "math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp"
#include "math_physics/numerical_integration/runge_kutta_template.hpp"

// ---------------------------------------------------------------- math_physics/math/interpolation.cpp
namespace s2e::math::ref {
//= s2e::math::Interpolation::CalcPolynomial
double Interpolation_CalcPolynomial(Interpolation* self, const double x) {
  // Search nearest point
  size_t nearest_x_id = self->FindNearestPoint(x);

  // Neville's algorithm
  double y_output = self->dependent_variables_[nearest_x_id];
  std::vector<double> down_diff = self->dependent_variables_;
  std::vector<double> up_diff = self->dependent_variables_;
  size_t d_idx = 1;
  for (size_t m = 1; m < self->degree_; m++) {
    // Calculate C and D
    for (size_t i = 0; i < self->degree_ - m; i++) {
      double denominator = self->independent_variables_[i] - self->independent_variables_[i + m];
      double down_minus_up = down_diff[i + 1] - up_diff[i];
      up_diff[i] = (self->independent_variables_[i + m] - x) * down_minus_up / denominator;
      down_diff[i] = (self->independent_variables_[i] - x) * down_minus_up / denominator;
    }

    // Upstream first calculation
    double dy;
    if (nearest_x_id >= m) {
      dy = up_diff[nearest_x_id - d_idx];
      d_idx++;
    } else {
      dy = down_diff[0];
    }
    y_output += dy;
  }

  return y_output;
}
//= s2e::math::Interpolation::CalcTrigonometric
double Interpolation_CalcTrigonometric(Interpolation* self, const double x, const double period) {
  double y_output = 0.0;
  size_t end_id = self->degree_;
  size_t start_id = 0;

  // Modify to odd number degrees
  // TODO: implement more efficient method
  if (self->degree_ % 2 == 0) {
    size_t nearest_point = self->FindNearestPoint(x);
    // Remove the farthest point
    if (nearest_point * 2 < self->degree_) {
      end_id--;
    } else {
      start_id++;
    }
  }

  for (size_t i = start_id; i < end_id; ++i) {
    double t_k = 1.0;
    for (size_t j = start_id; j < end_id; ++j) {
      if (i == j) continue;
      t_k *= sin(period * (x - self->independent_variables_[j]) / 2.0) / sin(period * (self->independent_variables_[i] - self->independent_variables_[j]) / 2.0);
    }
    y_output += t_k * self->dependent_variables_[i];
  }

  return y_output;
}
//= s2e::math::Interpolation::PushAndPopData
bool Interpolation_PushAndPopData(Interpolation* self, const double independent_variable, const double dependent_variable) {
  if (independent_variable <= self->independent_variables_.back()) {
    return false;
  }
  self->independent_variables_.erase(self->independent_variables_.begin());
  self->independent_variables_.push_back(independent_variable);
  self->dependent_variables_.erase(self->dependent_variables_.begin());
  self->dependent_variables_.push_back(dependent_variable);
  return true;
}
//= s2e::math::Interpolation::FindNearestPoint
size_t Interpolation_FindNearestPoint(Interpolation* self, const double x) {
  size_t output = 0;
  double difference1 = fabs(x - self->independent_variables_[0]);
  for (size_t i = 0; i < self->degree_; i++) {
    double difference2 = fabs(x - self->independent_variables_[i]);
    if (difference2 < difference1) {
      difference1 = difference2;
      output = i;
    }
  }
  return output;
}
}
// ---------------------------------------------------------------- math_physics/math/interpolation.hpp
namespace s2e::math::ref {
//= s2e::math::Interpolation::Interpolation
void Interpolation_Ctor(Interpolation* self, std::vector<double> independent_variables, std::vector<double> dependent_variables) {
  self->independent_variables_ = independent_variables;
  self->dependent_variables_ = dependent_variables;

    self->degree_ = self->independent_variables_.size();
    if (self->degree_ < 2) {
      std::cout << "[WARNINGS] Interpolation degree is smaller than 2" << std::endl;
    }
  }
//= s2e::math::Interpolation::GetDegree
size_t Interpolation_GetDegree(Interpolation* self) { return self->degree_; }
//= s2e::math::Interpolation::GetIndependentVariables
std::vector<double> Interpolation_GetIndependentVariables(Interpolation* self) { return self->independent_variables_; }
//= s2e::math::Interpolation::GetDependentVariables
std::vector<double> Interpolation_GetDependentVariables(Interpolation* self) { return self->dependent_variables_; }
}
// ---------------------------------------------------------------- math_physics/math/quaternion.cpp
namespace s2e::math::ref {
//= s2e::math::Quaternion::Quaternion(consts2e::math::Vector<3,double>&,constdouble)
void Quaternion_Ctor(Quaternion* self, const Vector<3>& rotation_axis, const double rotation_angle_rad) {
  double half_rotation_angle_rad = rotation_angle_rad * 0.5;
  self->quaternion_[3] = cos(half_rotation_angle_rad);

  // Vector<3> norm = Normalize(rotation_axis);
  // for(size_t i=0; i<3; ++i){ quaternion_[i] = norm[i]*sin(rotation_angle_rad); }
  for (size_t i = 0; i < 3; ++i) {
    self->quaternion_[i] = rotation_axis[i] * sin(half_rotation_angle_rad);
  }
}
//= s2e::math::Quaternion::Quaternion(consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&)
void Quaternion_Ctor2(Quaternion* self, const Vector<3>& vector_before, const Vector<3>& vector_after) {
  // Assert for zero vector
  assert(vector_before.CalcNorm() > DBL_EPSILON);
  assert(vector_after.CalcNorm() > DBL_EPSILON);
  // Normalize
  Vector<3> normalized_v_before = 1.0 / vector_before.CalcNorm() * vector_before;
  Vector<3> normalized_v_after = 1.0 / vector_after.CalcNorm() * vector_after;
  // inner product (=cosine of the CalcAngleTwoVectors_rad(theta) between two vectors)
  double ip = InnerProduct(normalized_v_before, normalized_v_after);
  // outer product (rotation rotation_axis for converting vector_before to vector_after)
  Vector<3> op = OuterProduct(normalized_v_before, normalized_v_after);

  if (ip > 1.0 - DBL_EPSILON) {  // if theta=0, then rotation is not need
    self->quaternion_[0] = 0.0;
    self->quaternion_[1] = 0.0;
    self->quaternion_[2] = 0.0;
    self->quaternion_[3] = 1.0;
  } else if (ip < -1.0 + DBL_EPSILON) {
    // if theta=180deg, the rotation rotation_axis can't be defined, so rotate vector_before manually
    Vector<3> rotation_axis = GenerateOrthogonalUnitVector(vector_before);
    self->quaternion_[0] = rotation_axis[0], self->quaternion_[1] = rotation_axis[1], self->quaternion_[2] = rotation_axis[2], self->quaternion_[3] = 0.0;
  } else {
    assert(op.CalcNorm() > 0.0);
    Vector<3> rotation_axis = 1.0 / op.CalcNorm() * op;
    double rotation_angle = acos(ip);
    self->quaternion_[0] = rotation_axis[0] * sin(0.5 * rotation_angle);
    self->quaternion_[1] = rotation_axis[1] * sin(0.5 * rotation_angle);
    self->quaternion_[2] = rotation_axis[2] * sin(0.5 * rotation_angle);
    self->quaternion_[3] = cos(0.5 * rotation_angle);
  }
}
//= s2e::math::operator-(consts2e::math::Quaternion&,consts2e::math::Quaternion&)
Quaternion _operator_(const Quaternion& lhs, const Quaternion& rhs) {
  Quaternion temp;
  for (int i = 0; i < 4; ++i) {
    temp[i] = lhs[i] - rhs[i];
  }
  return temp;
}
//= s2e::math::operator+(consts2e::math::Quaternion&,consts2e::math::Quaternion&)
Quaternion _operator_2(const Quaternion& lhs, const Quaternion& rhs) {
  Quaternion temp;
  for (int i = 0; i < 4; ++i) {
    temp[i] = lhs[i] + rhs[i];
  }
  return temp;
}
//= s2e::math::operator*(consts2e::math::Quaternion&,consts2e::math::Quaternion&)
Quaternion _operator_3(const Quaternion& lhs, const Quaternion& rhs) {
  Quaternion temp;

  temp[0] = lhs[3] * rhs[0] - lhs[2] * rhs[1] + lhs[1] * rhs[2] + lhs[0] * rhs[3];
  temp[1] = lhs[2] * rhs[0] + lhs[3] * rhs[1] - lhs[0] * rhs[2] + lhs[1] * rhs[3];
  temp[2] = -lhs[1] * rhs[0] + lhs[0] * rhs[1] + lhs[3] * rhs[2] + lhs[2] * rhs[3];
  temp[3] = -lhs[0] * rhs[0] - lhs[1] * rhs[1] - lhs[2] * rhs[2] + lhs[3] * rhs[3];

  return temp;
}
//= s2e::math::operator*(consts2e::math::Quaternion&,consts2e::math::Vector<3,double>&)
Quaternion _operator_4(const Quaternion& lhs, const Vector<3>& rhs) {
  Quaternion temp;

  temp[0] = lhs[1] * rhs[2] - lhs[2] * rhs[1] + lhs[3] * rhs[0];
  temp[1] = -lhs[0] * rhs[2] + lhs[2] * rhs[0] + lhs[3] * rhs[1];
  temp[2] = lhs[0] * rhs[1] - lhs[1] * rhs[0] + lhs[3] * rhs[2];
  temp[3] = -lhs[0] * rhs[0] - lhs[1] * rhs[1] - lhs[2] * rhs[2];

  return temp;
}
//= s2e::math::operator*(constdouble&,consts2e::math::Quaternion&)
Quaternion _operator_5(const double& lhs, const Quaternion& rhs) {
  Quaternion temp;
  for (size_t i = 0; i < 4; i++) {
    temp[i] = lhs * rhs[i];
  }
  return temp;
}
//= s2e::math::Quaternion::Normalize
Quaternion Quaternion_Normalize(Quaternion* self) {
  double n = 0.0;
  for (int i = 0; i < 4; ++i) {
    n += pow(self->quaternion_[i], 2.0);
  }
  if (n == 0.0) {
    return self->quaternion_;
  }  // zero Quaternion

  n = 1.0 / sqrt(n);
  for (int i = 0; i < 4; ++i) {
    self->quaternion_[i] *= n;
  }

  return self->quaternion_;
}
//= s2e::math::Quaternion::Conjugate
Quaternion Quaternion_Conjugate(Quaternion* self) {
  Quaternion temp(self->quaternion_);
  for (int i = 0; i < 3; ++i) {
    temp[i] *= -1.0;
  }
  return temp;
}
//= s2e::math::Quaternion::ConvertToDcm
Matrix<3, 3> Quaternion_ConvertToDcm(Quaternion* self) {
  Matrix<3, 3> dcm;

  dcm[0][0] = self->quaternion_[3] * self->quaternion_[3] + self->quaternion_[0] * self->quaternion_[0] - self->quaternion_[1] * self->quaternion_[1] - self->quaternion_[2] * self->quaternion_[2];
  dcm[0][1] = 2.0 * (self->quaternion_[0] * self->quaternion_[1] + self->quaternion_[3] * self->quaternion_[2]);
  dcm[0][2] = 2.0 * (self->quaternion_[0] * self->quaternion_[2] - self->quaternion_[3] * self->quaternion_[1]);

  dcm[1][0] = 2.0 * (self->quaternion_[0] * self->quaternion_[1] - self->quaternion_[3] * self->quaternion_[2]);
  dcm[1][1] = self->quaternion_[3] * self->quaternion_[3] - self->quaternion_[0] * self->quaternion_[0] + self->quaternion_[1] * self->quaternion_[1] - self->quaternion_[2] * self->quaternion_[2];
  dcm[1][2] = 2.0 * (self->quaternion_[1] * self->quaternion_[2] + self->quaternion_[3] * self->quaternion_[0]);

  dcm[2][0] = 2.0 * (self->quaternion_[0] * self->quaternion_[2] + self->quaternion_[3] * self->quaternion_[1]);
  dcm[2][1] = 2.0 * (self->quaternion_[1] * self->quaternion_[2] - self->quaternion_[3] * self->quaternion_[0]);
  dcm[2][2] = self->quaternion_[3] * self->quaternion_[3] - self->quaternion_[0] * self->quaternion_[0] - self->quaternion_[1] * self->quaternion_[1] + self->quaternion_[2] * self->quaternion_[2];

  return dcm;
}
//= s2e::math::Quaternion::ConvertFromDcm
Quaternion Quaternion_ConvertFromDcm(const Matrix<3, 3> dcm) {
  Quaternion q;
  q[0] = sqrt(1 + dcm[0][0] - dcm[1][1] - dcm[2][2]) / 2;
  q[1] = sqrt(1 - dcm[0][0] + dcm[1][1] - dcm[2][2]) / 2;
  q[2] = sqrt(1 - dcm[0][0] - dcm[1][1] + dcm[2][2]) / 2;
  q[3] = sqrt(1 + dcm[0][0] + dcm[1][1] + dcm[2][2]) / 2;
  double max_value = 0;
  int max_index = 0;
  for (int i = 0; i < 4; i++) {
    // Scan maximum value index
    if (std::abs(q[i]) > max_value) {
      max_value = std::abs(q[i]);
      max_index = i;
    }
  }
  // Use the maximum value as denominator
  switch (max_index) {
    case 0:
      q[1] = (dcm[0][1] + dcm[1][0]) / (4 * q[0]);
      q[2] = (dcm[0][2] + dcm[2][0]) / (4 * q[0]);
      q[3] = (dcm[1][2] - dcm[2][1]) / (4 * q[0]);
      break;
    case 1:
      q[0] = (dcm[0][1] + dcm[1][0]) / (4 * q[1]);
      q[2] = (dcm[2][1] + dcm[1][2]) / (4 * q[1]);
      q[3] = (dcm[2][0] - dcm[0][2]) / (4 * q[1]);
      break;
    case 2:
      q[0] = (dcm[2][0] + dcm[0][2]) / (4 * q[2]);
      q[1] = (dcm[2][1] + dcm[1][2]) / (4 * q[2]);
      q[3] = (dcm[0][1] - dcm[1][0]) / (4 * q[2]);
      break;
    case 3:
      q[0] = (dcm[1][2] - dcm[2][1]) / (4 * q[3]);
      q[1] = (dcm[2][0] - dcm[0][2]) / (4 * q[3]);
      q[2] = (dcm[0][1] - dcm[1][0]) / (4 * q[3]);
      break;
  }
  return q;
}
//= s2e::math::Quaternion::ConvertToEuler
Vector<3> Quaternion_ConvertToEuler(Quaternion* self) {
  auto dcm = self->ConvertToDcm();
  Vector<3> euler;
  euler[0] = atan2(dcm[1][2], dcm[2][2]);
  euler[1] = atan2(-dcm[0][2], sqrt(dcm[1][2] * dcm[1][2] + dcm[2][2] * dcm[2][2]));
  euler[2] = atan2(dcm[0][1], dcm[0][0]);
  return euler;
}
//= s2e::math::Quaternion::ConvertFromEuler
Quaternion Quaternion_ConvertFromEuler(const Vector<3> euler) {
  double esin[3], ecos[3];
  for (int i = 0; i < 3; i++) {
    esin[i] = sin(euler[i]);
    ecos[i] = cos(euler[i]);
  }
  Matrix<3, 3> dcm;
  dcm[0][0] = ecos[1] * ecos[2];
  dcm[0][1] = ecos[1] * esin[2];
  dcm[0][2] = -esin[1];
  dcm[1][0] = -ecos[0] * esin[2] + esin[0] * esin[1] * ecos[2];
  dcm[1][1] = ecos[0] * ecos[2] + esin[0] * esin[1] * esin[2];
  dcm[1][2] = esin[0] * ecos[1];
  dcm[2][0] = esin[0] * esin[2] + ecos[0] * esin[1] * ecos[2];
  dcm[2][1] = -esin[0] * ecos[2] + ecos[0] * esin[1] * esin[2];
  dcm[2][2] = ecos[0] * ecos[1];
  return Quaternion::ConvertFromDcm(dcm);
}
//= s2e::math::Quaternion::FrameConversion
Vector<3> Quaternion_FrameConversion(Quaternion* self, const Vector<3>& vector) {
  Quaternion conjugate = self->Conjugate();
  Quaternion temp1 = conjugate * vector;
  Quaternion temp2 = temp1 * self->quaternion_;
  Vector<3> answer;
  for (int i = 0; i < 3; ++i) {
    answer[i] = temp2[i];
  }
  return answer;
}
//= s2e::math::Quaternion::InverseFrameConversion
Vector<3> Quaternion_InverseFrameConversion(Quaternion* self, const Vector<3>& vector) {
  Quaternion conjugate = self->Conjugate();
  Quaternion temp1 = self->quaternion_ * vector;
  Quaternion temp2 = temp1 * conjugate;
  Vector<3> answer;
  for (int i = 0; i < 3; ++i) {
    answer[i] = temp2[i];
  }
  return answer;
}
//= s2e::math::Quaternion::ConvertToVector
Vector<4> Quaternion_ConvertToVector(Quaternion* self) { return self->quaternion_; }
}
// ---------------------------------------------------------------- math_physics/math/quaternion.hpp
namespace s2e::math::ref {
//= s2e::math::Quaternion::Quaternion()
void Quaternion_Ctor(Quaternion* self) {}
//= s2e::math::Quaternion::Quaternion(constdouble,constdouble,constdouble,constdouble)
void Quaternion_Ctor2(Quaternion* self, const double quaternion_x, const double quaternion_y, const double quaternion_z, const double quaternion_w) {
    self->quaternion_[0] = quaternion_x;
    self->quaternion_[1] = quaternion_y;
    self->quaternion_[2] = quaternion_z;
    self->quaternion_[3] = quaternion_w;
  }
//= s2e::math::Quaternion::Quaternion(consts2e::math::Vector<4,double>&)
void Quaternion_Ctor3(Quaternion* self, const Vector<4>& quaternion_vector) {
  self->quaternion_ = quaternion_vector;
}
//= s2e::math::Quaternion::operator=
Quaternion& Quaternion_operator_(Quaternion* self, const Vector<4>& quaternion_vector) {
    self->quaternion_ = quaternion_vector;
    return *self;
  }
//= s2e::math::Quaternion::operatorconsts2e::math::Vector<4>&
const Vector<4> & Quaternion_operator_const_s2e__math__Vector_4___(Quaternion* self) { return self->quaternion_; }
//= s2e::math::Quaternion::operatordouble*
double * Quaternion_operator_double__(Quaternion* self) { return self->quaternion_; }
//= s2e::math::Quaternion::operatorconstdouble*
const double * Quaternion_operator_const_double__(Quaternion* self) { return self->quaternion_; }
}
// ---------------------------------------------------------------- math_physics/math/s2e_math.cpp
namespace s2e::math::ref {
//= s2e::math::WrapTo2Pi
double _WrapTo2Pi(const double angle_rad) {
  double angle_out = angle_rad;
  if (angle_out < 0.0) {
    while (angle_out < 0.0) {
      angle_out += math::tau;
    }
  } else if (angle_out > math::tau) {
    while (angle_out > math::tau) {
      angle_out -= math::tau;
    }
  } else {
    // nothing to do
  }
  return angle_out;
}
}
// ---------------------------------------------------------------- math_physics/math/vector.cpp
namespace s2e::math::ref {
//= s2e::math::ConvertFrameOrthogonal2Polar
Vector<3, double> _ConvertFrameOrthogonal2Polar(const Vector<3, double>& orthogonal) {
  Vector<3, double> polar;  // vector on the polar coordinate
  polar.FillUp(0.0);
  polar[0] = orthogonal.CalcNorm();
  // Skip when zero vector
  if (polar[0] == 0.0) {
    return polar;
  }
  polar[1] = acos(orthogonal[2] / polar[0]);
  // Skip phi calculation when the orthogonal is on the Z-axis
  if ((orthogonal[0] == 0.0) && (orthogonal[1] == 0.0)) {
    return polar;
  }
  polar[2] = atan2(orthogonal[1], orthogonal[0]);
  if (polar[2] < 0.0) {
    polar[2] += numbers::tau;
  }

  return polar;
}
//= s2e::math::GenerateOrthogonalUnitVector
Vector<3, double> _GenerateOrthogonalUnitVector(const Vector<3, double>& v) {
  Vector<3> orthogonal_vector;
  if (v[0] * v[0] <= v[1] * v[1] && v[0] * v[0] <= v[1] * v[1]) {
    orthogonal_vector[0] = 0.0;
    orthogonal_vector[1] = v[2];
    orthogonal_vector[2] = -v[1];
    orthogonal_vector = orthogonal_vector.CalcNormalizedVector();
    return (orthogonal_vector);
  } else if (v[1] * v[1] <= v[0] * v[0] && v[1] * v[1] <= v[2] * v[2]) {
    orthogonal_vector[0] = -v[2];
    orthogonal_vector[1] = 0.0;
    orthogonal_vector[2] = v[0];
    orthogonal_vector = orthogonal_vector.CalcNormalizedVector();
    return (orthogonal_vector);
  } else {
    orthogonal_vector[0] = v[1];
    orthogonal_vector[1] = -v[0];
    orthogonal_vector[2] = 0.0;
    orthogonal_vector = orthogonal_vector.CalcNormalizedVector();
    return (orthogonal_vector);
  }
}
}
// ---------------------------------------------------------------- vectors
namespace s2e::math::ref {
//= s2e::math::Vector<3,double>::Vector()
void Vector3_Ctor(Vector<3>* self) {}
//= s2e::math::Vector<3,double>::Vector(constdouble&)
void Vector3_Ctor2(Vector<3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i) self->vector_[i] = n;
}
//= s2e::math::Vector<3,double>::GetLength
size_t Vector3_GetLength(Vector<3>* self) { return 3; }
//= s2e::math::Vector<3,double>::operatordouble*
double* Vector3_elements(Vector<3>* self) { return self->vector_; }
//= s2e::math::Vector<3,double>::operatorconstdouble*
const double* Vector3_elements2(Vector<3>* self) { return self->vector_; }
//= s2e::math::Vector<3,double>::operator()(unsignedlong)
double& Vector3_at(Vector<3>* self, std::size_t position) {
  if (3 <= position) throw std::invalid_argument("Argument exceeds Vector's dimension.");
  return self->vector_[position];
}
//= s2e::math::Vector<3,double>::operator()(unsignedlong)c
double Vector3_at2(Vector<3>* self, std::size_t position) {
  if (3 <= position) throw std::invalid_argument("Argument exceeds Vector's dimension.");
  return self->vector_[position];
}
//= s2e::math::Vector<3,double>::operator+=
Vector<3>& Vector3_add(Vector<3>* self, const Vector<3>& v) {
  for (size_t i = 0; i < 3; ++i) self->vector_[i] += v.vector_[i];
  return *self;
}
//= s2e::math::Vector<3,double>::operator-=
Vector<3>& Vector3_sub(Vector<3>* self, const Vector<3>& v) {
  for (size_t i = 0; i < 3; ++i) self->vector_[i] -= v.vector_[i];
  return *self;
}
//= s2e::math::Vector<3,double>::operator*=
Vector<3>& Vector3_mul(Vector<3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i) self->vector_[i] *= n;
  return *self;
}
//= s2e::math::Vector<3,double>::operator/=
Vector<3>& Vector3_div(Vector<3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i) self->vector_[i] *= 1.0 / n;
  return *self;
}
//= s2e::math::Vector<3,double>::operator-()c
Vector<3> Vector3_neg(Vector<3>* self) {
  Vector<3> negated;
  for (size_t i = 0; i < 3; ++i) negated[i] = -self->vector_[i];
  return negated;
}
//= s2e::math::Vector<3,double>::FillUp
void Vector3_FillUp(Vector<3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i) self->vector_[i] = n;
}
//= s2e::math::Vector<3,double>::CalcNorm
double Vector3_CalcNorm(Vector<3>* self) {
  double sum = 0.0;
  for (size_t i = 0; i < 3; ++i) sum += self->vector_[i] * self->vector_[i];
  return sqrt(sum);
}
//= s2e::math::Vector<3,double>::CalcNormalizedVector
Vector<3> Vector3_CalcNormalizedVector(Vector<3>* self) {
  Vector<3> normalized;
  for (size_t i = 0; i < 3; ++i) normalized[i] = self->vector_[i];
  double n = self->CalcNorm();
  if (n == 0.0) return normalized;
  for (size_t i = 0; i < 3; ++i) normalized[i] = self->vector_[i] / n;
  return normalized;
}
//= s2e::math::operator+(consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&)
Vector<3> add3(const Vector<3>& lhs, const Vector<3>& rhs) {
  Vector<3> temp;
  for (size_t i = 0; i < 3; ++i) temp[i] = lhs[i] + rhs[i];
  return temp;
}
//= s2e::math::operator-(consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&)
Vector<3> sub3(const Vector<3>& lhs, const Vector<3>& rhs) {
  Vector<3> temp;
  for (size_t i = 0; i < 3; ++i) temp[i] = lhs[i] - rhs[i];
  return temp;
}
//= s2e::math::operator*(constdouble&,consts2e::math::Vector<3,double>&)
Vector<3> mul3(const double& lhs, const Vector<3>& rhs) {
  Vector<3> temp;
  for (size_t i = 0; i < 3; ++i) temp[i] = lhs * rhs[i];
  return temp;
}
//= s2e::math::InnerProduct(consts2e::math::Vector<3,double>&,consts2e::math::Vector<3,double>&)
double inner3(const Vector<3>& lhs, const Vector<3>& rhs) {
  double sum = 0;
  for (size_t i = 0; i < 3; ++i) sum += lhs[i] * rhs[i];
  return sum;
}
//= s2e::math::Vector<6,double>::Vector()
void Vector6_Ctor(Vector<6>* self) {}
//= s2e::math::Vector<6,double>::Vector(constdouble&)
void Vector6_Ctor2(Vector<6>* self, const double& n) {
  for (size_t i = 0; i < 6; ++i) self->vector_[i] = n;
}
//= s2e::math::Vector<6,double>::GetLength
size_t Vector6_GetLength(Vector<6>* self) { return 6; }
//= s2e::math::Vector<6,double>::operatordouble*
double* Vector6_elements(Vector<6>* self) { return self->vector_; }
//= s2e::math::Vector<6,double>::operatorconstdouble*
const double* Vector6_elements2(Vector<6>* self) { return self->vector_; }
//= s2e::math::Vector<6,double>::operator()(unsignedlong)
double& Vector6_at(Vector<6>* self, std::size_t position) {
  if (6 <= position) throw std::invalid_argument("Argument exceeds Vector's dimension.");
  return self->vector_[position];
}
//= s2e::math::Vector<6,double>::operator()(unsignedlong)c
double Vector6_at2(Vector<6>* self, std::size_t position) {
  if (6 <= position) throw std::invalid_argument("Argument exceeds Vector's dimension.");
  return self->vector_[position];
}
//= s2e::math::Vector<6,double>::operator+=
Vector<6>& Vector6_add(Vector<6>* self, const Vector<6>& v) {
  for (size_t i = 0; i < 6; ++i) self->vector_[i] += v.vector_[i];
  return *self;
}
//= s2e::math::Vector<6,double>::operator-=
Vector<6>& Vector6_sub(Vector<6>* self, const Vector<6>& v) {
  for (size_t i = 0; i < 6; ++i) self->vector_[i] -= v.vector_[i];
  return *self;
}
//= s2e::math::Vector<6,double>::operator*=
Vector<6>& Vector6_mul(Vector<6>* self, const double& n) {
  for (size_t i = 0; i < 6; ++i) self->vector_[i] *= n;
  return *self;
}
//= s2e::math::Vector<6,double>::operator/=
Vector<6>& Vector6_div(Vector<6>* self, const double& n) {
  for (size_t i = 0; i < 6; ++i) self->vector_[i] *= 1.0 / n;
  return *self;
}
//= s2e::math::Vector<6,double>::operator-()c
Vector<6> Vector6_neg(Vector<6>* self) {
  Vector<6> negated;
  for (size_t i = 0; i < 6; ++i) negated[i] = -self->vector_[i];
  return negated;
}
//= s2e::math::Vector<6,double>::FillUp
void Vector6_FillUp(Vector<6>* self, const double& n) {
  for (size_t i = 0; i < 6; ++i) self->vector_[i] = n;
}
//= s2e::math::Vector<6,double>::CalcNorm
double Vector6_CalcNorm(Vector<6>* self) {
  double sum = 0.0;
  for (size_t i = 0; i < 6; ++i) sum += self->vector_[i] * self->vector_[i];
  return sqrt(sum);
}
//= s2e::math::Vector<6,double>::CalcNormalizedVector
Vector<6> Vector6_CalcNormalizedVector(Vector<6>* self) {
  Vector<6> normalized;
  for (size_t i = 0; i < 6; ++i) normalized[i] = self->vector_[i];
  double n = self->CalcNorm();
  if (n == 0.0) return normalized;
  for (size_t i = 0; i < 6; ++i) normalized[i] = self->vector_[i] / n;
  return normalized;
}
//= s2e::math::operator+(consts2e::math::Vector<6,double>&,consts2e::math::Vector<6,double>&)
Vector<6> add6(const Vector<6>& lhs, const Vector<6>& rhs) {
  Vector<6> temp;
  for (size_t i = 0; i < 6; ++i) temp[i] = lhs[i] + rhs[i];
  return temp;
}
//= s2e::math::operator-(consts2e::math::Vector<6,double>&,consts2e::math::Vector<6,double>&)
Vector<6> sub6(const Vector<6>& lhs, const Vector<6>& rhs) {
  Vector<6> temp;
  for (size_t i = 0; i < 6; ++i) temp[i] = lhs[i] - rhs[i];
  return temp;
}
//= s2e::math::operator*(constdouble&,consts2e::math::Vector<6,double>&)
Vector<6> mul6(const double& lhs, const Vector<6>& rhs) {
  Vector<6> temp;
  for (size_t i = 0; i < 6; ++i) temp[i] = lhs * rhs[i];
  return temp;
}
//= s2e::math::InnerProduct(consts2e::math::Vector<6,double>&,consts2e::math::Vector<6,double>&)
double inner6(const Vector<6>& lhs, const Vector<6>& rhs) {
  double sum = 0;
  for (size_t i = 0; i < 6; ++i) sum += lhs[i] * rhs[i];
  return sum;
}
//= s2e::math::OuterProduct
Vector<3> _OuterProduct(const Vector<3>& lhs, const Vector<3>& rhs) {
  Vector<3> temp;
  temp[0] = lhs[1] * rhs[2] - lhs[2] * rhs[1];
  temp[1] = lhs[2] * rhs[0] - lhs[0] * rhs[2];
  temp[2] = lhs[0] * rhs[1] - lhs[1] * rhs[0];
  return temp;
}
//= s2e::math::CalcAngleTwoVectors_rad
double _CalcAngleTwoVectors_rad(const Vector<3>& v1, const Vector<3>& v2) {
  double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
  return acos(std::max(-1.0, std::min(1.0, cos)));
}
}

// ---------------------------------------------------------------- matrices
namespace s2e::math::ref {
//= s2e::math::Matrix<3,3,double>::Matrix()
void Matrix33_Ctor(Matrix<3, 3>* self) {}
//= s2e::math::Matrix<3,3,double>::Matrix(constdouble&)
void Matrix33_Ctor2(Matrix<3, 3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] = n;
}
//= s2e::math::Matrix<3,3,double>::GetRowLength
size_t Matrix33_GetRowLength(Matrix<3, 3>* self) { return 3; }
//= s2e::math::Matrix<3,3,double>::GetColumnLength
size_t Matrix33_GetColumnLength(Matrix<3, 3>* self) { return 3; }
//= s2e::math::Matrix<3,3,double>::operatordouble(*)[3]
auto& Matrix33_elements(Matrix<3, 3>* self) { return self->matrix_; }
//= s2e::math::Matrix<3,3,double>::operatorconstdouble(*)[3]
auto& Matrix33_elements2(Matrix<3, 3>* self) { return self->matrix_; }
//= s2e::math::Matrix<3,3,double>::operator()(unsignedlong,unsignedlong)
double& Matrix33_at(Matrix<3, 3>* self, size_t row, size_t column) {
  if (!self->IsValidRange(row, column)) throw std::invalid_argument("Argument exceeds the range of matrix.");
  return self->matrix_[row][column];
}
//= s2e::math::Matrix<3,3,double>::operator()(unsignedlong,unsignedlong)c
const double& Matrix33_at2(Matrix<3, 3>* self, size_t row, size_t column) {
  if (!self->IsValidRange(row, column)) throw std::invalid_argument("Argument exceeds the range of matrix.");
  return self->matrix_[row][column];
}
//= s2e::math::Matrix<3,3,double>::IsValidRange
bool Matrix33_IsValidRange(Matrix<3, 3>* self, size_t row, size_t column) { return row < 3 && column < 3; }
//= s2e::math::Matrix<3,3,double>::operator+=
const Matrix<3, 3>& Matrix33_add(Matrix<3, 3>* self, const Matrix<3, 3>& m) {
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] += m.matrix_[i][j];
  return *self;
}
//= s2e::math::Matrix<3,3,double>::operator-=
const Matrix<3, 3>& Matrix33_sub(Matrix<3, 3>* self, const Matrix<3, 3>& m) {
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] -= m.matrix_[i][j];
  return *self;
}
//= s2e::math::Matrix<3,3,double>::operator*=
const Matrix<3, 3>& Matrix33_mul(Matrix<3, 3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] *= n;
  return *self;
}
//= s2e::math::Matrix<3,3,double>::operator/=
const Matrix<3, 3>& Matrix33_div(Matrix<3, 3>* self, const double& n) {
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] *= 1.0 / n;
  return *self;
}
//= s2e::math::Matrix<3,3,double>::FillUp
void Matrix33_FillUp(Matrix<3, 3>* self, const double& t) {
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] = t;
}
//= s2e::math::Matrix<3,3,double>::CalcTrace
double Matrix33_CalcTrace(Matrix<3, 3>* self) {
  double trace = 0.0;
  for (size_t i = 0; i < 3; ++i) trace += self->matrix_[i][i];
  return trace;
}
//= s2e::math::Matrix<3,3,double>::Transpose
Matrix<3, 3> Matrix33_Transpose(Matrix<3, 3>* self) {
  Matrix<3, 3> temp;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) temp[j][i] = self->matrix_[i][j];
  return temp;
}
//= s2e::math::operator+(consts2e::math::Matrix<3,3,double>&,consts2e::math::Matrix<3,3,double>&)
Matrix<3, 3> madd33(const Matrix<3, 3>& lhs, const Matrix<3, 3>& rhs) {
  Matrix<3, 3> temp;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i][j] = lhs[i][j] + rhs[i][j];
  return temp;
}
//= s2e::math::operator-(consts2e::math::Matrix<3,3,double>&,consts2e::math::Matrix<3,3,double>&)
Matrix<3, 3> msub33(const Matrix<3, 3>& lhs, const Matrix<3, 3>& rhs) {
  Matrix<3, 3> temp;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i][j] = lhs[i][j] - rhs[i][j];
  return temp;
}
//= s2e::math::operator*(constdouble&,consts2e::math::Matrix<3,3,double>&)
Matrix<3, 3> mmul33(const double& lhs, const Matrix<3, 3>& rhs) {
  Matrix<3, 3> temp;
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i][j] = lhs * rhs[i][j];
  return temp;
}
//= s2e::math::operator*(consts2e::math::Matrix<3,3,double>&,consts2e::math::Matrix<3,3,double>&)
Matrix<3, 3> mm33(const Matrix<3, 3>& lhs, const Matrix<3, 3>& rhs) {
  Matrix<3, 3> temp(0.0);
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j)
      for (size_t k = 0; k < 3; ++k) temp[i][j] += lhs[i][k] * rhs[k][j];
  return temp;
}
//= s2e::math::operator*(consts2e::math::Matrix<3,3,double>&,consts2e::math::Vector<3,double>&)
Vector<3> mv33(const Matrix<3, 3>& matrix, const Vector<3>& vector) {
  Vector<3> temp(0.0);
  for (size_t i = 0; i < 3; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i] += matrix[i][j] * vector[j];
  return temp;
}
//= s2e::math::Matrix<2,3,double>::Matrix()
void Matrix23_Ctor(Matrix<2, 3>* self) {}
//= s2e::math::Matrix<2,3,double>::Matrix(constdouble&)
void Matrix23_Ctor2(Matrix<2, 3>* self, const double& n) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] = n;
}
//= s2e::math::Matrix<2,3,double>::GetRowLength
size_t Matrix23_GetRowLength(Matrix<2, 3>* self) { return 2; }
//= s2e::math::Matrix<2,3,double>::GetColumnLength
size_t Matrix23_GetColumnLength(Matrix<2, 3>* self) { return 3; }
//= s2e::math::Matrix<2,3,double>::operatordouble(*)[3]
auto& Matrix23_elements(Matrix<2, 3>* self) { return self->matrix_; }
//= s2e::math::Matrix<2,3,double>::operatorconstdouble(*)[3]
auto& Matrix23_elements2(Matrix<2, 3>* self) { return self->matrix_; }
//= s2e::math::Matrix<2,3,double>::operator()(unsignedlong,unsignedlong)
double& Matrix23_at(Matrix<2, 3>* self, size_t row, size_t column) {
  if (!self->IsValidRange(row, column)) throw std::invalid_argument("Argument exceeds the range of matrix.");
  return self->matrix_[row][column];
}
//= s2e::math::Matrix<2,3,double>::operator()(unsignedlong,unsignedlong)c
const double& Matrix23_at2(Matrix<2, 3>* self, size_t row, size_t column) {
  if (!self->IsValidRange(row, column)) throw std::invalid_argument("Argument exceeds the range of matrix.");
  return self->matrix_[row][column];
}
//= s2e::math::Matrix<2,3,double>::IsValidRange
bool Matrix23_IsValidRange(Matrix<2, 3>* self, size_t row, size_t column) { return row < 2 && column < 3; }
//= s2e::math::Matrix<2,3,double>::operator+=
const Matrix<2, 3>& Matrix23_add(Matrix<2, 3>* self, const Matrix<2, 3>& m) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] += m.matrix_[i][j];
  return *self;
}
//= s2e::math::Matrix<2,3,double>::operator-=
const Matrix<2, 3>& Matrix23_sub(Matrix<2, 3>* self, const Matrix<2, 3>& m) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] -= m.matrix_[i][j];
  return *self;
}
//= s2e::math::Matrix<2,3,double>::operator*=
const Matrix<2, 3>& Matrix23_mul(Matrix<2, 3>* self, const double& n) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] *= n;
  return *self;
}
//= s2e::math::Matrix<2,3,double>::operator/=
const Matrix<2, 3>& Matrix23_div(Matrix<2, 3>* self, const double& n) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] *= 1.0 / n;
  return *self;
}
//= s2e::math::Matrix<2,3,double>::FillUp
void Matrix23_FillUp(Matrix<2, 3>* self, const double& t) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) self->matrix_[i][j] = t;
}
//= s2e::math::Matrix<2,3,double>::CalcTrace
double Matrix23_CalcTrace(Matrix<2, 3>* self) {
  double trace = 0.0;

  return trace;
}
//= s2e::math::Matrix<2,3,double>::Transpose
Matrix<3, 2> Matrix23_Transpose(Matrix<2, 3>* self) {
  Matrix<3, 2> temp;
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) temp[j][i] = self->matrix_[i][j];
  return temp;
}
//= s2e::math::operator+(consts2e::math::Matrix<2,3,double>&,consts2e::math::Matrix<2,3,double>&)
Matrix<2, 3> madd23(const Matrix<2, 3>& lhs, const Matrix<2, 3>& rhs) {
  Matrix<2, 3> temp;
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i][j] = lhs[i][j] + rhs[i][j];
  return temp;
}
//= s2e::math::operator-(consts2e::math::Matrix<2,3,double>&,consts2e::math::Matrix<2,3,double>&)
Matrix<2, 3> msub23(const Matrix<2, 3>& lhs, const Matrix<2, 3>& rhs) {
  Matrix<2, 3> temp;
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i][j] = lhs[i][j] - rhs[i][j];
  return temp;
}
//= s2e::math::operator*(constdouble&,consts2e::math::Matrix<2,3,double>&)
Matrix<2, 3> mmul23(const double& lhs, const Matrix<2, 3>& rhs) {
  Matrix<2, 3> temp;
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i][j] = lhs * rhs[i][j];
  return temp;
}
//= s2e::math::operator*(consts2e::math::Matrix<2,3,double>&,consts2e::math::Matrix<3,4,double>&)
Matrix<2, 4> mm23(const Matrix<2, 3>& lhs, const Matrix<3, 4>& rhs) {
  Matrix<2, 4> temp(0.0);
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 4; ++j)
      for (size_t k = 0; k < 3; ++k) temp[i][j] += lhs[i][k] * rhs[k][j];
  return temp;
}
//= s2e::math::operator*(consts2e::math::Matrix<2,3,double>&,consts2e::math::Vector<3,double>&)
Vector<2> mv23(const Matrix<2, 3>& matrix, const Vector<3>& vector) {
  Vector<2> temp(0.0);
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) temp[i] += matrix[i][j] * vector[j];
  return temp;
}
//= s2e::math::MakeIdentityMatrix
Matrix<3, 3> _MakeIdentityMatrix() {
  Matrix<3, 3> m(0.0);
  for (size_t i = 0; i < 3; ++i) {
    m[i][i] = 1.0;
  }
  return m;
}
//= s2e::math::MakeRotationMatrixX
Matrix<3, 3> _MakeRotationMatrixX(const double& theta_rad) {
  Matrix<3, 3> m = MakeIdentityMatrix<3>();

  m[1][1] = cos(theta_rad);
  m[1][2] = sin(theta_rad);
  m[2][1] = -sin(theta_rad);
  m[2][2] = cos(theta_rad);
  return m;
}
//= s2e::math::MakeRotationMatrixY
Matrix<3, 3> _MakeRotationMatrixY(const double& theta_rad) {
  Matrix<3, 3> m = MakeIdentityMatrix<3>();

  m[0][0] = cos(theta_rad);
  m[0][2] = -sin(theta_rad);
  m[2][0] = sin(theta_rad);
  m[2][2] = cos(theta_rad);
  return m;
}
//= s2e::math::MakeRotationMatrixZ
Matrix<3, 3> _MakeRotationMatrixZ(const double& theta_rad) {
  Matrix<3, 3> m = MakeIdentityMatrix<3>();

  m[0][0] = cos(theta_rad);
  m[0][1] = sin(theta_rad);
  m[1][0] = -sin(theta_rad);
  m[1][1] = cos(theta_rad);
  return m;
}
}
namespace s2e::math::ref {
//= s2e::math::CalcInverseMatrix
Matrix<3, 3> _CalcInverseMatrix(const Matrix<3, 3>& matrix) {
  Matrix<3, 3> temp(matrix);
  size_t index[3];
  LuDecomposition(temp, index);

  Matrix<3, 3> inverse;
  Vector<3> vector;
  for (size_t i = 0; i < 3; ++i) {
    vector.FillUp(0.0);
    vector[i] = 1.0;
    SolveLinearSystemWithLu(temp, index, vector);
    for (size_t j = 0; j < 3; ++j) {
      inverse[j][i] = vector[j];
    }
  }
  return inverse;
}
//= s2e::math::LuDecomposition
Matrix<3, 3>& _LuDecomposition(Matrix<3, 3>& a, size_t index[]) {
  double coef[3];
  for (size_t i = 0; i < 3; ++i) {
    double biggest = 0.0;
    for (size_t j = 0; j < 3; ++j) {
      double temp;
      if ((temp = fabs(a[i][j])) > biggest) {
        biggest = temp;
      }
    }
    if (biggest == 0.0)  // Singular
    {
      throw std::invalid_argument("Given matrix is singular!!");
    }
    coef[i] = 1.0 / biggest;
  }

  for (size_t j = 0; j < 3; ++j) {
    for (size_t i = 0; i < j; ++i) {
      double sum = a[i][j];
      for (size_t k = 0; k < i; ++k) {
        sum -= a[i][k] * a[k][j];
      }
      a[i][j] = sum;
    }

    double biggest = 0.0;
    size_t imax = j;
    for (size_t i = j; i < 3; ++i) {
      double sum = a[i][j];
      for (size_t k = 0; k < j; ++k) {
        sum -= a[i][k] * a[k][j];
      }
      a[i][j] = sum;

      double temp;
      if ((temp = coef[i] * fabs(sum)) >= biggest) {
        biggest = temp;
        imax = i;
      }
    }

    if (j != imax)  // Pivotting
    {
      for (size_t i = 0; i < 3; ++i) {
        double temp = a[imax][i];
        a[imax][i] = a[j][i];
        a[j][i] = temp;
      }
      coef[imax] = coef[j];
    }
    index[j] = imax;

    if (a[j][j] == 0.0)  // Singular
    {
      throw std::invalid_argument("Given matrix is singular!!");
    }
    if (j != 3) {
      double temp = 1.0 / a[j][j];
      for (size_t i = j + 1; i < 3; ++i) {
        a[i][j] *= temp;
      }
    }
  }
  return a;
}
//= s2e::math::SolveLinearSystemWithLu
Vector<3>& _SolveLinearSystemWithLu(const Matrix<3, 3>& a, const size_t index[], Vector<3>& b) {
  double sum;
  bool non_zero = false;
  size_t mark = 0;
  for (size_t i = 0; i < 3; ++i) {
    size_t ip = index[i];
    sum = b[ip];
    b[ip] = b[i];
    if (non_zero) {
      for (size_t j = mark; j < i; ++j) {
        sum -= a[i][j] * b[j];
      }
    } else if (sum != 0.0) {
      non_zero = true;
      mark = i;
    }
    b[i] = sum;
  }

  for (int i = 3 - 1; i >= 0; --i) {
    sum = b[i];
    for (size_t j = i + 1; j < 3; ++j) {
      sum -= a[i][j] * b[j];
    }
    b[i] = sum / a[i][i];
  }

  return b;
}
}
// ---------------------------------------------------------------- single-step integration of ordinary differential equations
namespace s2e::math::ref {
//= s2e::math::OrdinaryDifferentialEquation<1>::OrdinaryDifferentialEquation
void Ode1_Ctor(OrdinaryDifferentialEquation<1>* self, double step_width_s) {
  self->independent_variable_ = 0.0;
  self->state_ = Vector<1>(0.0);
  self->derivative_ = Vector<1>(0.0);
  self->step_width_s_ = step_width_s;
}
//= s2e::math::OrdinaryDifferentialEquation<1>::Setup
void Ode1_Setup(OrdinaryDifferentialEquation<1>* self, double initial_independent_variable, const Vector<1>& initial_state) {
  self->independent_variable_ = initial_independent_variable;
  self->state_ = initial_state;
}
//= s2e::math::OrdinaryDifferentialEquation<1>::operator++
OrdinaryDifferentialEquation<1>& Ode1_step(OrdinaryDifferentialEquation<1>* self) {
  self->Update();
  return *self;
}
//= s2e::math::OrdinaryDifferentialEquation<1>::Update
void Ode1_Update(OrdinaryDifferentialEquation<1>* self) {
  const double h = self->step_width_s_;
  const double t = self->independent_variable_;
  const Vector<1> x = self->state_;
  Vector<1> f1, f2, f3, f4;
  self->DerivativeFunction(t, x, self->derivative_);
  f1 = h * self->derivative_;
  self->DerivativeFunction(t + h / 2.0, x + 0.5 * f1, f2);
  f2 = h * f2;
  self->DerivativeFunction(t + h / 2.0, x + 0.5 * f2, f3);
  f3 = h * f3;
  self->DerivativeFunction(t + h, x + f3, f4);
  f4 = h * f4;
  self->state_ = x + (1.0 / 6.0) * (f1 + 2.0 * f2 + 2.0 * f3 + f4);
  self->independent_variable_ = t + h;
}
//= s2e::math::OrdinaryDifferentialEquation<1>::SetStepWidth
void Ode1_SetStepWidth(OrdinaryDifferentialEquation<1>* self, const double step_width_s) { self->step_width_s_ = step_width_s; }
//= s2e::math::OrdinaryDifferentialEquation<1>::GetStepWidth
double Ode1_GetStepWidth(OrdinaryDifferentialEquation<1>* self) { return self->step_width_s_; }
//= s2e::math::OrdinaryDifferentialEquation<1>::GetIndependentVariable
double Ode1_GetIndependentVariable(OrdinaryDifferentialEquation<1>* self) { return self->independent_variable_; }
//= s2e::math::OrdinaryDifferentialEquation<1>::GetState()
Vector<1>& Ode1_GetState(OrdinaryDifferentialEquation<1>* self) { return self->state_; }
//= s2e::math::OrdinaryDifferentialEquation<1>::GetState()c
const Vector<1>& Ode1_GetState2(OrdinaryDifferentialEquation<1>* self) { return self->state_; }
//= s2e::math::OrdinaryDifferentialEquation<1>::GetDerivative
const Vector<1>& Ode1_GetDerivative(OrdinaryDifferentialEquation<1>* self) { return self->derivative_; }
//= s2e::math::OrdinaryDifferentialEquation<1>::operator[]
double Ode1_at(OrdinaryDifferentialEquation<1>* self, size_t n) { return self->state_[n]; }
//= s2e::math::OrdinaryDifferentialEquation<3>::OrdinaryDifferentialEquation
void Ode3_Ctor(OrdinaryDifferentialEquation<3>* self, double step_width_s) {
  self->independent_variable_ = 0.0;
  self->state_ = Vector<3>(0.0);
  self->derivative_ = Vector<3>(0.0);
  self->step_width_s_ = step_width_s;
}
//= s2e::math::OrdinaryDifferentialEquation<3>::Setup
void Ode3_Setup(OrdinaryDifferentialEquation<3>* self, double initial_independent_variable, const Vector<3>& initial_state) {
  self->independent_variable_ = initial_independent_variable;
  self->state_ = initial_state;
}
//= s2e::math::OrdinaryDifferentialEquation<3>::operator++
OrdinaryDifferentialEquation<3>& Ode3_step(OrdinaryDifferentialEquation<3>* self) {
  self->Update();
  return *self;
}
//= s2e::math::OrdinaryDifferentialEquation<3>::Update
void Ode3_Update(OrdinaryDifferentialEquation<3>* self) {
  const double h = self->step_width_s_;
  const double t = self->independent_variable_;
  const Vector<3> x = self->state_;
  Vector<3> f1, f2, f3, f4;
  self->DerivativeFunction(t, x, self->derivative_);
  f1 = h * self->derivative_;
  self->DerivativeFunction(t + h / 2.0, x + 0.5 * f1, f2);
  f2 = h * f2;
  self->DerivativeFunction(t + h / 2.0, x + 0.5 * f2, f3);
  f3 = h * f3;
  self->DerivativeFunction(t + h, x + f3, f4);
  f4 = h * f4;
  self->state_ = x + (1.0 / 6.0) * (f1 + 2.0 * f2 + 2.0 * f3 + f4);
  self->independent_variable_ = t + h;
}
//= s2e::math::OrdinaryDifferentialEquation<3>::SetStepWidth
void Ode3_SetStepWidth(OrdinaryDifferentialEquation<3>* self, const double step_width_s) { self->step_width_s_ = step_width_s; }
//= s2e::math::OrdinaryDifferentialEquation<3>::GetStepWidth
double Ode3_GetStepWidth(OrdinaryDifferentialEquation<3>* self) { return self->step_width_s_; }
//= s2e::math::OrdinaryDifferentialEquation<3>::GetIndependentVariable
double Ode3_GetIndependentVariable(OrdinaryDifferentialEquation<3>* self) { return self->independent_variable_; }
//= s2e::math::OrdinaryDifferentialEquation<3>::GetState()
Vector<3>& Ode3_GetState(OrdinaryDifferentialEquation<3>* self) { return self->state_; }
//= s2e::math::OrdinaryDifferentialEquation<3>::GetState()c
const Vector<3>& Ode3_GetState2(OrdinaryDifferentialEquation<3>* self) { return self->state_; }
//= s2e::math::OrdinaryDifferentialEquation<3>::GetDerivative
const Vector<3>& Ode3_GetDerivative(OrdinaryDifferentialEquation<3>* self) { return self->derivative_; }
//= s2e::math::OrdinaryDifferentialEquation<3>::operator[]
double Ode3_at(OrdinaryDifferentialEquation<3>* self, size_t n) { return self->state_[n]; }
//= s2e::math::OrdinaryDifferentialEquation<6>::OrdinaryDifferentialEquation
void Ode6_Ctor(OrdinaryDifferentialEquation<6>* self, double step_width_s) {
  self->independent_variable_ = 0.0;
  self->state_ = Vector<6>(0.0);
  self->derivative_ = Vector<6>(0.0);
  self->step_width_s_ = step_width_s;
}
//= s2e::math::OrdinaryDifferentialEquation<6>::Setup
void Ode6_Setup(OrdinaryDifferentialEquation<6>* self, double initial_independent_variable, const Vector<6>& initial_state) {
  self->independent_variable_ = initial_independent_variable;
  self->state_ = initial_state;
}
//= s2e::math::OrdinaryDifferentialEquation<6>::operator++
OrdinaryDifferentialEquation<6>& Ode6_step(OrdinaryDifferentialEquation<6>* self) {
  self->Update();
  return *self;
}
//= s2e::math::OrdinaryDifferentialEquation<6>::Update
void Ode6_Update(OrdinaryDifferentialEquation<6>* self) {
  const double h = self->step_width_s_;
  const double t = self->independent_variable_;
  const Vector<6> x = self->state_;
  Vector<6> f1, f2, f3, f4;
  self->DerivativeFunction(t, x, self->derivative_);
  f1 = h * self->derivative_;
  self->DerivativeFunction(t + h / 2.0, x + 0.5 * f1, f2);
  f2 = h * f2;
  self->DerivativeFunction(t + h / 2.0, x + 0.5 * f2, f3);
  f3 = h * f3;
  self->DerivativeFunction(t + h, x + f3, f4);
  f4 = h * f4;
  self->state_ = x + (1.0 / 6.0) * (f1 + 2.0 * f2 + 2.0 * f3 + f4);
  self->independent_variable_ = t + h;
}
//= s2e::math::OrdinaryDifferentialEquation<6>::SetStepWidth
void Ode6_SetStepWidth(OrdinaryDifferentialEquation<6>* self, const double step_width_s) { self->step_width_s_ = step_width_s; }
//= s2e::math::OrdinaryDifferentialEquation<6>::GetStepWidth
double Ode6_GetStepWidth(OrdinaryDifferentialEquation<6>* self) { return self->step_width_s_; }
//= s2e::math::OrdinaryDifferentialEquation<6>::GetIndependentVariable
double Ode6_GetIndependentVariable(OrdinaryDifferentialEquation<6>* self) { return self->independent_variable_; }
//= s2e::math::OrdinaryDifferentialEquation<6>::GetState()
Vector<6>& Ode6_GetState(OrdinaryDifferentialEquation<6>* self) { return self->state_; }
//= s2e::math::OrdinaryDifferentialEquation<6>::GetState()c
const Vector<6>& Ode6_GetState2(OrdinaryDifferentialEquation<6>* self) { return self->state_; }
//= s2e::math::OrdinaryDifferentialEquation<6>::GetDerivative
const Vector<6>& Ode6_GetDerivative(OrdinaryDifferentialEquation<6>* self) { return self->derivative_; }
//= s2e::math::OrdinaryDifferentialEquation<6>::operator[]
double Ode6_at(OrdinaryDifferentialEquation<6>* self, size_t n) { return self->state_[n]; }
}

// ---------------------------------------------------------------- math_physics/numerical_integration/numerical_integrator.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::NumericalIntegrator<13>::NumericalIntegrator
void NumericalIntegrator_Ctor(NumericalIntegrator<13>* self, const double step_width, const InterfaceOde<13>& ode) {
  self->step_width_ = step_width;
  MUT(self->ode_) = ode;
  self->current_independent_variable_ = 0.0;
  self->current_state_ = math::Vector<13>(0.0);
  self->previous_state_ = math::Vector<13>(0.0);
}
//= s2e::numerical_integration::NumericalIntegrator<13>::SetState
void NumericalIntegrator_SetState(NumericalIntegrator<13>* self, const double independent_variable, const math::Vector<13>& state) {
    self->current_independent_variable_ = independent_variable;
    self->current_state_ = state;
    self->previous_state_ = state;
  }
//= s2e::numerical_integration::NumericalIntegrator<13>::GetState
math::Vector<13>& NumericalIntegrator_GetState(NumericalIntegrator<13>* self) { return self->current_state_; }
}
// ---------------------------------------------------------------- math_physics/numerical_integration/runge_kutta.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::RungeKutta<13>::RungeKutta
void RungeKutta_Ctor(RungeKutta<13>* self, const double step_width, const InterfaceOde<13>& ode) {
  NumericalIntegrator_Ctor(self, step_width, ode);
  self->nodes_ = std::vector<double>();
  self->weights_ = std::vector<double>();
  self->rk_matrix_ = std::vector<std::vector<double>>();
  self->slope_ = std::vector<math::Vector<13>>();
}
}
// ---------------------------------------------------------------- math_physics/numerical_integration/embedded_runge_kutta.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::EmbeddedRungeKutta<13>::EmbeddedRungeKutta
void EmbeddedRungeKutta_Ctor(EmbeddedRungeKutta<13>* self, const double step_width, const InterfaceOde<13>& ode) {
  RungeKutta_Ctor(self, step_width, ode);
  self->higher_order_weights_ = std::vector<double>();
}
//= s2e::numerical_integration::EmbeddedRungeKutta<13>::GetLocalTruncationError
double EmbeddedRungeKutta_GetLocalTruncationError(EmbeddedRungeKutta<13>* self) { return self->local_truncation_error_; }
}
// ---------------------------------------------------------------- math_physics/numerical_integration/runge_kutta_4.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::RungeKutta4<13>::RungeKutta4
void RungeKutta4_Ctor(RungeKutta4<13>* self, const double step_width, const InterfaceOde<13>& ode) {
  RungeKutta_Ctor(self, step_width, ode);

    // Classical 4th order Runge-Kutta (4-order, 4-stage)
    self->number_of_stages_ = 4;
    self->approximation_order_ = 4;
    self->nodes_.assign(self->number_of_stages_, 0.0);
    self->weights_.assign(self->number_of_stages_, 0.0);
    self->rk_matrix_.assign(self->number_of_stages_, std::vector<double>(self->number_of_stages_, 0.0));

    self->nodes_[1] = self->nodes_[2] = 0.5;
    self->nodes_[3] = 1.0;

    self->weights_[0] = self->weights_[3] = 1.0 / 6.0;
    self->weights_[1] = self->weights_[2] = 1.0 / 3.0;

    self->rk_matrix_[1][0] = self->rk_matrix_[2][1] = 0.5;
    self->rk_matrix_[3][2] = 1.0;

    self->CalcSlope();
  }
//= s2e::numerical_integration::RungeKutta4<13>::CalcInterpolationState
math::Vector<13> RungeKutta4_CalcInterpolationState(RungeKutta4<13>* self, const double sigma) {
    UNUSED(sigma);
    return self->current_state_;
  }
}
// ---------------------------------------------------------------- math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::RungeKuttaFehlberg<13>::RungeKuttaFehlberg
void RungeKuttaFehlberg_Ctor(RungeKuttaFehlberg<13>* self, const double step_width, const InterfaceOde<13>& ode) {
  EmbeddedRungeKutta_Ctor(self, step_width, ode);

  // p=4th/q=5th order Runge-Kutta-Fehlberg (6-stage)
  self->number_of_stages_ = 6;
  self->approximation_order_ = 4;
  self->nodes_.assign(self->number_of_stages_, 0.0);
  self->weights_.assign(self->number_of_stages_, 0.0);
  self->higher_order_weights_.assign(self->number_of_stages_, 0.0);
  self->rk_matrix_.assign(self->number_of_stages_, std::vector<double>(self->number_of_stages_, 0.0));

  self->nodes_[1] = 1.0 / 4.0;
  self->nodes_[2] = 3.0 / 8.0;
  self->nodes_[3] = 12.0 / 13.0;
  self->nodes_[4] = 1.0;
  self->nodes_[5] = 1.0 / 2.0;

  self->higher_order_weights_[0] = 16.0 / 135.0;
  self->higher_order_weights_[1] = 0.0;
  self->higher_order_weights_[2] = 6656.0 / 12825.0;
  self->higher_order_weights_[3] = 28561.0 / 56430.0;
  self->higher_order_weights_[4] = -9.0 / 50.0;
  self->higher_order_weights_[5] = 2.0 / 55.0;

  self->weights_[0] = 25.0 / 216.0;
  self->weights_[1] = 0.0;
  self->weights_[2] = 1408.0 / 2565.0;
  self->weights_[3] = 2197.0 / 4104.0;
  self->weights_[4] = -1.0 / 5.0;
  self->weights_[5] = 0.0;

  self->rk_matrix_[1][0] = 1.0 / 4.0;

  self->rk_matrix_[2][0] = 3.0 / 32.0;
  self->rk_matrix_[2][1] = 9.0 / 32.0;

  self->rk_matrix_[3][0] = 1932.0 / 2197.0;
  self->rk_matrix_[3][1] = -7200.0 / 2197.0;
  self->rk_matrix_[3][2] = 7296.0 / 2197.0;

  self->rk_matrix_[4][0] = 439.0 / 216.0;
  self->rk_matrix_[4][1] = -8.0;
  self->rk_matrix_[4][2] = 3680.0 / 513.0;
  self->rk_matrix_[4][3] = -845.0 / 4104.0;

  self->rk_matrix_[5][0] = -8.0 / 27.0;
  self->rk_matrix_[5][1] = 2.0;
  self->rk_matrix_[5][2] = -3544.0 / 2565.0;
  self->rk_matrix_[5][3] = 1859.0 / 4104.0;
  self->rk_matrix_[5][4] = -11.0 / 40.0;

  self->CalcSlope();
}
//= s2e::numerical_integration::RungeKuttaFehlberg<13>::CalcInterpolationState
math::Vector<13> RungeKuttaFehlberg_CalcInterpolationState(RungeKuttaFehlberg<13>* self, const double sigma) {
  // Calc k7 (slope after state update)
  math::Vector<13> state_7 =
      self->previous_state_ + self->step_width_ * (1.0 / 6.0 * self->slope_[0] + 1.0 / 6.0 * self->slope_[4] + 2.0 / 3.0 * self->slope_[5]);
  math::Vector<13> k7 = self->ode_.DerivativeFunction(self->current_independent_variable_, state_7);

  std::vector<double> interpolation_weights = self->CalcInterpolationWeights(sigma);

  math::Vector<13> interpolation_state = self->previous_state_;
  for (size_t i = 0; i < self->number_of_stages_; i++) {
    interpolation_state = interpolation_state + (sigma * self->step_width_ * interpolation_weights[i]) * self->slope_[i];
  }
  interpolation_state = interpolation_state + sigma * self->step_width_ * (interpolation_weights[6] * k7);
  return interpolation_state;
}
//= s2e::numerical_integration::RungeKuttaFehlberg<13>::CalcInterpolationWeights
std::vector<double> RungeKuttaFehlberg_CalcInterpolationWeights(RungeKuttaFehlberg<13>* self, const double sigma) {
  std::vector<double> interpolation_weights;
  interpolation_weights.assign(self->number_of_stages_ + 1, 0.0);

  interpolation_weights[0] = 1.0 - sigma * (301.0 / 120.0 + sigma * (-269.0 / 108.0 + sigma * 311.0 / 360.0));
  interpolation_weights[1] = 0.0;
  interpolation_weights[2] = sigma * (7168.0 / 1425.0 + sigma * (-4096.0 / 513.0 + sigma * 14848.0 / 4275.0));
  interpolation_weights[3] = sigma * (-28561.0 / 8360.0 + sigma * (199927.0 / 22572 - sigma * 371293.0 / 75240.0));
  interpolation_weights[4] = sigma * (57.0 / 50.0 + sigma * (-3.0 + sigma * 42.0 / 25.0));
  interpolation_weights[5] = sigma * (-96.0 / 55.0 + sigma * (40.0 / 11.0 - sigma * 102.0 / 55.0));
  interpolation_weights[6] = sigma * (3.0 / 2.0 + sigma * (-4.0 + sigma * 5.0 / 2.0));

  return interpolation_weights;
}
}
// ---------------------------------------------------------------- math_physics/numerical_integration/dormand_prince_5_implementation.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::DormandPrince5<13>::DormandPrince5
void DormandPrince5_Ctor(DormandPrince5<13>* self, const double step_width, const InterfaceOde<13>& ode) {
  EmbeddedRungeKutta_Ctor(self, step_width, ode);

  // p=5th/q=4th order 5th order Dormand and Prince (7-stage)
  self->number_of_stages_ = 7;
  self->approximation_order_ = 5;
  self->nodes_.assign(self->number_of_stages_, 0.0);
  self->weights_.assign(self->number_of_stages_, 0.0);
  self->higher_order_weights_.assign(self->number_of_stages_, 0.0);
  self->rk_matrix_.assign(self->number_of_stages_, std::vector<double>(self->number_of_stages_, 0.0));

  self->nodes_[0] = 0.0;
  self->nodes_[1] = 1.0 / 5.0;
  self->nodes_[2] = 3.0 / 10.0;
  self->nodes_[3] = 4.0 / 5.0;
  self->nodes_[4] = 8.0 / 9.0;
  self->nodes_[5] = 1.0;
  self->nodes_[6] = 1.0;

  self->weights_[0] = 5179.0 / 57600.0;
  self->weights_[1] = 0.0;
  self->weights_[2] = 7571.0 / 16695.0;
  self->weights_[3] = 393.0 / 640.0;
  self->weights_[4] = -92097.0 / 339200.0;
  self->weights_[5] = 187.0 / 2100.0;
  self->weights_[6] = 1.0 / 40.0;

  self->higher_order_weights_[0] = 35.0 / 384.0;
  self->higher_order_weights_[1] = 0.0;
  self->higher_order_weights_[2] = 500.0 / 1113.0;
  self->higher_order_weights_[3] = 125.0 / 192.0;
  self->higher_order_weights_[4] = -2187.0 / 6784.0;
  self->higher_order_weights_[5] = 11.0 / 84.0;
  self->higher_order_weights_[6] = 0.0;

  self->rk_matrix_[1][0] = 1.0 / 5.0;

  self->rk_matrix_[2][0] = 3.0 / 40.0;
  self->rk_matrix_[2][1] = 9.0 / 40.0;

  self->rk_matrix_[3][0] = 44.0 / 45.0;
  self->rk_matrix_[3][1] = -56.0 / 15.0;
  self->rk_matrix_[3][2] = 32.0 / 9.0;

  self->rk_matrix_[4][0] = 19372.0 / 6561.0;
  self->rk_matrix_[4][1] = -25360.0 / 2187.0;
  self->rk_matrix_[4][2] = 64448.0 / 6561.0;
  self->rk_matrix_[4][3] = -212.0 / 729.0;

  self->rk_matrix_[5][0] = 9017.0 / 3168.0;
  self->rk_matrix_[5][1] = -355.0 / 33.0;
  self->rk_matrix_[5][2] = 46732.0 / 5247.0;
  self->rk_matrix_[5][3] = 49.0 / 176.0;
  self->rk_matrix_[5][4] = -5103.0 / 18656.0;

  self->rk_matrix_[6][0] = 35.0 / 384.0;
  self->rk_matrix_[6][1] = 0.0;
  self->rk_matrix_[6][2] = 500.0 / 1113.0;
  self->rk_matrix_[6][3] = 125.0 / 192.0;
  self->rk_matrix_[6][4] = -2187.0 / 6784.0;
  self->rk_matrix_[6][5] = 11.0 / 84.0;

  // Interpolation coefficients
  self->coefficients_.clear();
  math::Vector<5> coefficients_temp;
  coefficients_temp[0] = 11282082432.0;
  coefficients_temp[1] = -32272833064.0;
  coefficients_temp[2] = 34969693132.0;
  coefficients_temp[3] = -13107642775.0;
  coefficients_temp[4] = 157015080.0;
  coefficients_temp = 1.0 / 11282082432.0 * coefficients_temp;
  self->coefficients_.push_back(coefficients_temp);

  coefficients_temp *= 0.0;
  self->coefficients_.push_back(coefficients_temp);

  coefficients_temp[0] = 0.0;
  coefficients_temp[1] = -1323431896.0;
  coefficients_temp[2] = 2074956840.0;
  coefficients_temp[3] = -914128567.0;
  coefficients_temp[4] = 15701508.0;
  coefficients_temp = -100.0 / 32700410799.0 * coefficients_temp;
  self->coefficients_.push_back(coefficients_temp);

  coefficients_temp[0] = 0.0;
  coefficients_temp[1] = -889289856.0;
  coefficients_temp[2] = 2460397220.0;
  coefficients_temp[3] = -1518414297.0;
  coefficients_temp[4] = 94209048.0;
  coefficients_temp = 25.0 / 5641041216.0 * coefficients_temp;
  self->coefficients_.push_back(coefficients_temp);

  coefficients_temp[0] = 0.0;
  coefficients_temp[1] = -259006536.0;
  coefficients_temp[2] = 687873124.0;
  coefficients_temp[3] = -451824525.0;
  coefficients_temp[4] = 52338360.0;
  coefficients_temp = -2187.0 / 199316789632.0 * coefficients_temp;
  self->coefficients_.push_back(coefficients_temp);

  coefficients_temp[0] = 0.0;
  coefficients_temp[1] = -361440756.0;
  coefficients_temp[2] = 946554244.0;
  coefficients_temp[3] = -661884105.0;
  coefficients_temp[4] = 106151040.0;
  coefficients_temp = 11.0 / 2467955532.0 * coefficients_temp;
  self->coefficients_.push_back(coefficients_temp);

  self->CalcSlope();
}
//= s2e::numerical_integration::DormandPrince5<13>::CalcInterpolationState
math::Vector<13> DormandPrince5_CalcInterpolationState(DormandPrince5<13>* self, const double sigma) {
  std::vector<double> interpolation_weights = self->CalcInterpolationWeights(sigma);

  math::Vector<13> interpolation_state = self->previous_state_;
  for (size_t i = 0; i < self->number_of_stages_; i++) {
    interpolation_state = interpolation_state + (sigma * self->step_width_ * interpolation_weights[i]) * self->slope_[i];
  }

  return interpolation_state;
}
//= s2e::numerical_integration::DormandPrince5<13>::CalcInterpolationWeights
std::vector<double> DormandPrince5_CalcInterpolationWeights(DormandPrince5<13>* self, const double sigma) {
  std::vector<double> interpolation_weights;
  interpolation_weights.assign(self->number_of_stages_, 0.0);

  for (size_t stage = 0; stage < self->number_of_stages_ - 1; stage++) {
    for (size_t j = 0; j < 5; j++) {
      interpolation_weights[stage] += pow(sigma, j) * self->coefficients_[stage][j];
    }
  }
  interpolation_weights[self->number_of_stages_ - 1] =
      sigma * (1.0 - sigma) * (8293050.0 * pow(sigma, 2.0) - 82437520.0 * sigma + 44764047.0) / 29380423.0;
  return interpolation_weights;
}
}
// ---------------------------------------------------------------- math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::EmbeddedRungeKutta<13>::Integrate
void EmbeddedRungeKutta_Integrate(EmbeddedRungeKutta<13>* self) {
  self->CalcSlope();

  self->previous_state_ = self->current_state_;
  math::Vector<13> lower_current_state = self->current_state_;   //!< eta in the equation
  math::Vector<13> higher_current_state = self->current_state_;  //!< eta_hat in the equation
  for (size_t i = 0; i < self->number_of_stages_; i++) {
    lower_current_state = lower_current_state + self->weights_[i] * self->step_width_ * self->slope_[i];
    higher_current_state = higher_current_state + self->higher_order_weights_[i] * self->step_width_ * self->slope_[i];
  }

  // Error evaluation
  math::Vector<13> truncation_error = lower_current_state - higher_current_state;
  self->local_truncation_error_ = truncation_error.CalcNorm();

  // State update
  self->current_state_ = higher_current_state;
  self->current_independent_variable_ += self->step_width_;
}
//= s2e::numerical_integration::EmbeddedRungeKutta<13>::ControlStepWidth
void EmbeddedRungeKutta_ControlStepWidth(EmbeddedRungeKutta<13>* self, const double error_tolerance) {
  double updated_step_width = pow(error_tolerance / self->local_truncation_error_, 1.0 / ((double)(self->approximation_order_ + 1))) * self->step_width_;
  if (updated_step_width <= 0.0) return;  // TODO: Error handling
  self->step_width_ = updated_step_width;
}
}
// ---------------------------------------------------------------- math_physics/numerical_integration/runge_kutta_template.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::RungeKutta<13>::Integrate
void RungeKutta_Integrate(RungeKutta<13>* self) {
  self->CalcSlope();

  self->previous_state_ = self->current_state_;
  for (size_t i = 0; i < self->number_of_stages_; i++) {
    self->current_state_ = self->current_state_ + self->weights_[i] * self->step_width_ * self->slope_[i];
  }
  self->current_independent_variable_ += self->step_width_;
}
//= s2e::numerical_integration::RungeKutta<13>::CalcSlope
void RungeKutta_CalcSlope(RungeKutta<13>* self) {
  self->slope_.assign(self->number_of_stages_, math::Vector<13>(0.0));

  for (size_t i = 0; i < self->number_of_stages_; i++) {
    math::Vector<13> state = self->current_state_;
    for (size_t j = 0; j < i; j++) {
      state = state + self->rk_matrix_[i][j] * self->step_width_ * self->slope_[j];
    }
    double independent_variable = self->current_independent_variable_ + self->nodes_[i] * self->step_width_;
    self->slope_[i] = self->ode_.DerivativeFunction(independent_variable, state);
  }
}
}
// ---------------------------------------------------------------- math_physics/numerical_integration/numerical_integrator_manager.hpp
namespace s2e::numerical_integration::ref {
//= s2e::numerical_integration::NumericalIntegratorManager<13>::NumericalIntegratorManager
void NumericalIntegratorManager_Ctor(NumericalIntegratorManager<13>* self, const double step_width, const InterfaceOde<13>& ode, const NumericalIntegrationMethod method) {
    switch (method) {
      case NumericalIntegrationMethod::kRk4:
        self->integrator_ = std::make_shared<RungeKutta4<13>>(step_width, ode);
        break;
      case NumericalIntegrationMethod::kRkf:
        self->integrator_ = std::make_shared<RungeKuttaFehlberg<13>>(step_width, ode);
        break;
      case NumericalIntegrationMethod::kDp5:
        self->integrator_ = std::make_shared<DormandPrince5<13>>(step_width, ode);
        break;
      default:
        self->integrator_ = std::make_shared<RungeKutta4<13>>(step_width, ode);
        break;
    }
  }
//= s2e::numerical_integration::NumericalIntegratorManager<13>::GetIntegrator
std::shared_ptr<NumericalIntegrator<13>> NumericalIntegratorManager_GetIntegrator(NumericalIntegratorManager<13>* self) { return self->integrator_; }
}
// ---------------------------------------------------------------- math_physics/control_utilities/first_order_lag.hpp
namespace s2e::control_utilities::ref {
//= s2e::control_utilities::FirstOrderLag::FirstOrderLag
void FirstOrderLag_Ctor(FirstOrderLag* self, const double time_step_s, const double time_constant_s, const double gain) {
  self->output_ = 0.0;
  const_cast<double&>(self->time_step_s_) = time_step_s;
  const_cast<double&>(self->time_constant_s_) = time_constant_s;
  const_cast<double&>(self->gain_) = gain;
}
//= s2e::control_utilities::FirstOrderLag::Update
double FirstOrderLag_Update(FirstOrderLag* self, const double input) {
    if (self->time_step_s_ + self->time_constant_s_ <= 0.0) return 0.0;
    const double c_out = self->time_constant_s_ / (self->time_step_s_ + self->time_constant_s_);
    const double c_in = (self->gain_ * self->time_step_s_) / (self->time_step_s_ + self->time_constant_s_);
    self->output_ = c_out * self->output_ + c_in * input;

    return self->output_;
  }
//= s2e::control_utilities::FirstOrderLag::GetOutput
double FirstOrderLag_GetOutput(FirstOrderLag* self) { return self->output_; }
}
namespace s2e::math::ref {
//= s2e::math::Quaternion::operatordouble*
double* Quaternion_Data(Quaternion* self) { return self->quaternion_; }
//= s2e::math::Quaternion::operatorconstdouble*
const double* Quaternion_ConstData(const Quaternion* self) { return self->quaternion_; }
//= s2e::math::Quaternion::operatorconsts2e::math::Vector<4>&
const Vector<4>& Quaternion_Vector(const Quaternion* self) { return self->quaternion_; }
}
