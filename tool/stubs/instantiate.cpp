// Instantiates the members of the mathematics templates, so that all of them are part of the analysed program.
#include <iomanip>
#include <sstream>
#include "logger/log_utility.hpp"
#include <math_physics/math/matrix.hpp>
#include <math_physics/math/matrix_vector.hpp>
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <math_physics/math/vector.hpp>
#include <math_physics/numerical_integration/dormand_prince_5.hpp>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
#include <math_physics/numerical_integration/runge_kutta_4.hpp>
#include <math_physics/numerical_integration/runge_kutta_fehlberg.hpp>
namespace s2e {
template class math::Vector<3>;
template class math::Vector<6>;
template class math::Matrix<3, 3>;
template class math::Matrix<2, 3>;
template class math::OrdinaryDifferentialEquation<1>;
template class math::OrdinaryDifferentialEquation<3>;
template class math::OrdinaryDifferentialEquation<6>;
template class numerical_integration::NumericalIntegrator<13>;
template class numerical_integration::RungeKutta<13>;
template class numerical_integration::RungeKutta4<13>;
template class numerical_integration::EmbeddedRungeKutta<13>;
template class numerical_integration::RungeKuttaFehlberg<13>;
template class numerical_integration::DormandPrince5<13>;
namespace math {
template const Vector<6> operator-(const Vector<6>&, const Vector<6>&);
template const double InnerProduct(const Vector<6>&, const Vector<6>&);
template const Matrix<2, 3> operator+(const Matrix<2, 3>&, const Matrix<2, 3>&);
template const Matrix<2, 3> operator-(const Matrix<2, 3>&, const Matrix<2, 3>&);
template const Matrix<2, 3> operator*(const double&, const Matrix<2, 3>&);
template const Matrix<2, 4> operator*(const Matrix<2, 3>&, const Matrix<3, 4>&);
template Vector<2> operator*(const Matrix<2, 3>&, const Vector<3>&);
template Matrix<4, 4> CalcInverseMatrix(const Matrix<4, 4>&);
}  // namespace math
namespace logger {
template std::string WriteMatrix(const math::Matrix<3, 3>, const int);
}  // namespace logger
}  // namespace s2e
