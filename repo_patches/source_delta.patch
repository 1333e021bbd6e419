From 3955fbce235df7cadaa9f693275dc66862e69390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 01/58] fix: initialise the power switch state of ports
 constructed with a port ID

---
 src/components/ports/power_port.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/components/ports/power_port.cpp b/src/components/ports/power_port.cpp
index 5671b94..625d431 100644
--- a/src/components/ports/power_port.cpp
+++ b/src/components/ports/power_port.cpp
@@ -18,6 +18,7 @@ PowerPort::PowerPort() : kPortId(-1), current_limit_A_(10.0), minimum_voltage_V_
 
 PowerPort::PowerPort(const int port_id, const double current_limit_A)
     : kPortId(port_id), current_limit_A_(current_limit_A), minimum_voltage_V_(3.3), assumed_power_consumption_W_(0.0) {
+  is_on_ = false;  // power off until the voltage is supplied
   Initialize();
 }
 
@@ -26,6 +27,7 @@ PowerPort::PowerPort(const int port_id, const double current_limit_A, const doub
       current_limit_A_(current_limit_A),
       minimum_voltage_V_(minimum_voltage_V),
       assumed_power_consumption_W_(assumed_power_consumption_W) {
+  is_on_ = false;  // power off until the voltage is supplied
   Initialize();
 }
 
-- 
2.43.0


From 4ec13fcb8ecf0b80f1924aa2d91b53566e38490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 02/58] fix: keep the geomagnetic field noise generators per
 instance

---
 src/environment/local/geomagnetic_field.cpp | 14 ++++----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..1f35355 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,6 +18,8 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()),
       igrf_file_name_(igrf_file_name) {
   set_file_path(igrf_file_name_.c_str());
 }
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..6e23ac5 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -77,6 +79,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_standard_deviation_nT_;  //!< Standard deviation of Random Walk [nT]
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk of the magnetic field
+  randomization::NormalRand white_noise_;     //!< White noise of the magnetic field
   std::string igrf_file_name_;                //!< Path to the initialize file
 
   /**
-- 
2.43.0


From 0ce13d4282b1be4036850ee8f8dc6169b990fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 03/58] fix: keep the residual magnetic moment noise generators
 per instance

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..09ed080 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      random_noise_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + random_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..8eff97e 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of RMM
+  randomization::NormalRand random_noise_;                              //!< Random noise of RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From dbae7e4f3d8ff59294f1a2d274c05a6d200361ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 04/58] fix: use the limited degree when constructing the
 gravity potential

---
 src/disturbances/geopotential.cpp        | 2 +-
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..73b6ddc 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..e225917 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From 5345bce69456641fbb04a0dae976a82c397f10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 05/58] fix: do not copy the celestial information when
 updating the lunar gravity field

---
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index e225917..54a80e9 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -89,7 +89,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation& global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
-- 
2.43.0


From efd38b3b7c6007853d22efd6ae8511c18d9e3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 06/58] fix: cover an altitude of exactly 1000 km in the simple
 air density model

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From e1b770428b3a7b3e7c4143cd1d41a8471edb9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 07/58] fix: do not read past the end of a truncated SLIP frame

---
 src/utilities/slip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..b805e3b 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -26,7 +26,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   auto fesc_itr = out.begin();
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
-    if (fesc_itr == out.end()) break;
+    if (fesc_itr == out.end() || fesc_itr + 1 == out.end()) break;
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -44,6 +44,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
   std::vector<uint8_t> in_without_header = in;
+  if (in_without_header.empty()) return in_without_header;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
 }
-- 
2.43.0


From 54f94dba4ae4aef279635e8495e226a417e8973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 08/58] fix: choose the position in the shuffle table from the
 generated number

---
 ...imal_standard_linear_congruential_generator_with_shuffle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..0deece8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -31,7 +31,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From 3332431cb2e9e7964d8a37b7b1cfcfa5fc6a8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 09/58] fix: keep UART transfers with an offset inside the
 right buffer

---
 src/components/base/uart_communication_with_obc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..2334261 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -140,7 +140,7 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
   if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
@@ -161,8 +161,8 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From c55aa86b2c4d68858561e1af974ea5e77a339c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 10/58] fix: access consecutive registers of the addressed I2C
 device

---
 src/components/real/cdh/on_board_computer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..56a0a32 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -96,7 +96,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
@@ -104,7 +104,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
   return 0;
 }
-- 
2.43.0


From 3a05056c8a8a74806704d6b830b1bef8f7a70e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 11/58] fix: report an I2C access to an unconnected port

---
 src/components/real/cdh/on_board_computer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 56a0a32..9f39c08 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,6 +95,7 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -103,6 +104,7 @@ int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -110,6 +112,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From 0227e242ac67977947af27d9f7e72145e04612a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 12/58] fix: register every third shadow source of the setting
 file

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..371d188 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From 56b9c06d910817b87f862b3bad84c3957d8bad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 13/58] fix: multiply the shadow coefficient of an annular
 occultation like the other cases

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 371d188..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From e6b63001e2f25ec658969b3fbc18d8d58e811e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 14/58] fix: reject the GNSS satellite ID just past the last
 calculated satellite

---
 src/environment/global/gnss_satellites.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..34471ce 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -77,7 +77,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -95,7 +95,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
-- 
2.43.0


From 208ae9ef2dd7518d82db12cfc64ff99ac8c582f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 15/58] fix: do not read past the end of the time series when
 its last row was used

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..9924935 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -76,7 +76,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
-- 
2.43.0


From 4af4debb1161b1550d8f9ec275fb263b76ff923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 16/58] fix: report an I2C access of C2A to an unconnected port

---
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..028286d 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,12 +156,14 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,6 +187,7 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
@@ -192,6 +196,7 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (unsigned char i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
   }
@@ -199,6 +204,7 @@ int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_ad
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From 8a5237e0a611bf9c26bb117851cd4a11ba6186db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 17/58] fix: star sensor output delay was ignored when its
 position in the delay buffer wraps around

---
 src/components/real/aocs/star_sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..8692185 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -97,7 +97,7 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
   if (update_count_ == 0) {
     int hist = buffer_position_ - output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From 43d55a1637fd10d2b9ef68a65721d1346d0f2761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 18/58] fix: link budget composed the frame conversions to the
 antenna frames in the wrong order

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..18ef915 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -79,7 +79,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -87,7 +87,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 575c5c4f0399e922ee56ea11fa02ca0a61fe8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 19/58] fix: velocities of celestial bodies in the body frame
 mixed the body-frame angular velocity with inertial positions

---
 src/environment/local/local_celestial_information.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..f534308 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -115,13 +115,10 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
   }
 
   // convert body rate vector into that in inertial coordinate
-  math::Vector<3> wb;
-  for (int i = 0; i < 3; i++) {
-    wb[i] = angular_velocity_b[i];
-  }
+  math::Vector<3> wi = quaternion_i2b.InverseFrameConversion(angular_velocity_b);
 
   // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
+  math::Vector<3> wxposition_i = OuterProduct(wi, ri);
   // compute dr/dt + wxr
   for (int i = 0; i < 3; i++) {
     vi[i] = vi[i] - wxposition_i[i];
-- 
2.43.0


From 51f3c2a9780d542e161034b1a4463924d91d3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 20/58] fix: magnetorquer accumulated its bias, noise and scale
 factor into the commanded moment at every step

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..8e92277 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -67,6 +67,7 @@ void Magnetorquer::MainRoutine(const int time_count) {
 
 void Magnetorquer::PowerOffRoutine() {
   torque_b_Nm_ *= 0.0;
+  commanded_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
@@ -74,6 +75,7 @@ void Magnetorquer::PowerOffRoutine() {
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
   for (size_t i = 0; i < kMtqDimension; ++i) {
     // Limit Check
+    output_magnetic_moment_c_Am2_[i] = commanded_magnetic_moment_c_Am2_[i];
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
       output_magnetic_moment_c_Am2_[i] = max_magnetic_moment_c_Am2_[i];
     } else if (output_magnetic_moment_c_Am2_[i] < min_magnetic_moment_c_Am2_[i]) {
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..ed1cd91 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { commanded_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> commanded_magnetic_moment_c_Am2_{0.0};  //!< Commanded magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From a71ae5b5f129e3bd4782f6fa1fefe1a31a7b0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 21/58] fix: relative attitude quaternion composed in the frame
 conversion order

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..aeb3226 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -121,7 +121,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From 4488c0bf1a7257102cc3cd0cd2ff8cf68916afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:06 +0000
Subject: [PATCH 22/58] fix: range check callable on a constant matrix (element
 access of a const Matrix did not compile)

---
 src/math_physics/math/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/math/matrix.hpp b/src/math_physics/math/matrix.hpp
index a731e1d..38c5f38 100644
--- a/src/math_physics/math/matrix.hpp
+++ b/src/math_physics/math/matrix.hpp
@@ -166,7 +166,7 @@ class Matrix {
    * @param [in] column: Target column number
    * @return True: row/column number is in the range
    */
-  inline bool IsValidRange(size_t row, size_t column) { return (row < R && column < C); }
+  inline bool IsValidRange(size_t row, size_t column) const { return (row < R && column < C); }
 };
 
 /**
-- 
2.43.0


From 6d71b7a4340af016d1b196fbf236e6f2fe72bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:39 +0000
Subject: [PATCH 23/58] fix: space weather table updated in December read past
 the end of the month lengths

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index c467efe..87161f2 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -275,7 +275,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
 
         // After 1.5 month from the update date, the data is updated once per month. So calculate the decimal year of the date
         int days_month[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
-        decyear_monthly = decyear_updated + (days_month[month_updated] + 14) / 365.0;
+        decyear_monthly = decyear_updated + (days_month[month_updated % 12] + 14) / 365.0;
       }
       continue;
     }
-- 
2.43.0


From 6369a13119041762a09fbe440e3b5b484180297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 24/58] fix: InitAttitude never deleted the temporary
 controlled attitude, whose name stayed registered and made the next case
 throw

---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..f882dd4 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0


From bb3257d2df29a067213c4a2767d236cb0cccac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 25/58] fix: CelestialInformation leaked the moon rotation and
 its copy constructor left both rotations and the rotation modes unset

---
 src/environment/global/celestial_information.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/environment/global/celestial_information.cpp b/src/environment/global/celestial_information.cpp
index a8ffde6..2cfa96b 100644
--- a/src/environment/global/celestial_information.cpp
+++ b/src/environment/global/celestial_information.cpp
@@ -74,7 +74,8 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
     : number_of_selected_bodies_(obj.number_of_selected_bodies_),
       inertial_frame_name_(obj.inertial_frame_name_),
       center_body_name_(obj.center_body_name_),
-      aberration_correction_setting_(obj.aberration_correction_setting_) {
+      aberration_correction_setting_(obj.aberration_correction_setting_),
+      rotation_mode_list_(obj.rotation_mode_list_) {
   unsigned int num_of_state = number_of_selected_bodies_ * 3;
 
   selected_body_ids_ = new int[number_of_selected_bodies_];
@@ -93,6 +94,9 @@ CelestialInformation::CelestialInformation(const CelestialInformation& obj)
   memcpy(celestial_body_gravity_constant_m3_s2_, obj.celestial_body_gravity_constant_m3_s2_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_mean_radius_m_, obj.celestial_body_mean_radius_m_, size_d * number_of_selected_bodies_);
   memcpy(celestial_body_planetographic_radii_m_, obj.celestial_body_planetographic_radii_m_, size_d * num_of_state);
+
+  earth_rotation_ = new EarthRotation(*obj.earth_rotation_);
+  moon_rotation_ = new MoonRotation(*this, ConvertMoonRotationMode(GetRotationMode("MOON")));
 }
 
 CelestialInformation::~CelestialInformation() {
@@ -103,6 +107,7 @@ CelestialInformation::~CelestialInformation() {
   delete[] celestial_body_planetographic_radii_m_;
   delete[] selected_body_ids_;
   delete earth_rotation_;
+  delete moon_rotation_;
 }
 
 void CelestialInformation::UpdateAllObjectsInformation(const SimulationTime& simulation_time) {
-- 
2.43.0


From 029cba60e818837f9c2ec9e03f560a186780f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 26/58] fix: the on-board computer and the power control unit
 never released the ports still open at their destruction

---
 src/components/real/cdh/on_board_computer.cpp    | 6 +++++-
 src/components/real/power/power_control_unit.cpp | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index 9f39c08..eaa878b 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -21,7 +21,11 @@ OnBoardComputer::OnBoardComputer(int prescaler, environment::ClockGenerator* clo
   Initialize();
 }
 
-OnBoardComputer::~OnBoardComputer() {}
+OnBoardComputer::~OnBoardComputer() {
+  for (auto& port : uart_ports_) delete port.second;
+  for (auto& port : i2c_ports_) delete port.second;
+  for (auto& port : gpio_ports_) delete port.second;
+}
 
 void OnBoardComputer::Initialize() {}
 
diff --git a/src/components/real/power/power_control_unit.cpp b/src/components/real/power/power_control_unit.cpp
index 5ed5589..6092dc6 100644
--- a/src/components/real/power/power_control_unit.cpp
+++ b/src/components/real/power/power_control_unit.cpp
@@ -10,7 +10,9 @@ PowerControlUnit::PowerControlUnit(environment::ClockGenerator* clock_generator)
 
 PowerControlUnit::PowerControlUnit(int prescaler, environment::ClockGenerator* clock_generator) : Component(prescaler, clock_generator) {}
 
-PowerControlUnit::~PowerControlUnit() {}
+PowerControlUnit::~PowerControlUnit() {
+  for (auto& port : power_ports_) delete port.second;
+}
 
 void PowerControlUnit::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From 35be47641b187659edc11dd72d22b92916149d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 27/58] fix: the Monte Carlo executor never released its
 parameters

---
 .../monte_carlo_simulation_executor.hpp                   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp b/src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp
index 729a11d..12ab41a 100644
--- a/src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp
+++ b/src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp
@@ -36,6 +36,14 @@ class MonteCarloSimulationExecutor {
    */
   MonteCarloSimulationExecutor(unsigned long long total_num_of_executions);
 
+  /**
+   * @fn ~MonteCarloSimulationExecutor
+   * @brief Destructor
+   */
+  ~MonteCarloSimulationExecutor() {
+    for (auto& parameter : init_parameter_list_) delete parameter.second;
+  }
+
   // Setter
   /**
    * @fn Enable
-- 
2.43.0


From d1cd6afaa859ee3a27fca26751db05753ba83294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 28/58] fix: Spacecraft deleted pointers that had never been
 set when destroyed before initialisation

---
 src/simulation/spacecraft/spacecraft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/spacecraft/spacecraft.hpp b/src/simulation/spacecraft/spacecraft.hpp
index b7de818..088e65e 100644
--- a/src/simulation/spacecraft/spacecraft.hpp
+++ b/src/simulation/spacecraft/spacecraft.hpp
@@ -106,7 +106,7 @@ class Spacecraft {
   environment::LocalEnvironment* local_environment_;       //!< Local environment information around the spacecraft
   disturbances::Disturbances* disturbances_;               //!< Disturbance information acting on the spacecraft
   spacecraft::Structure* structure_;                       //!< Structure information of the spacecraft
-  InstalledComponents* components_;                        //!< Components information installed on the spacecraft
+  InstalledComponents* components_ = nullptr;              //!< Components information installed on the spacecraft
   const unsigned int spacecraft_id_;                       //!< ID of the spacecraft
 };
 
-- 
2.43.0


From 209cf577776a03f3dc4facf11ea816066dac07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:07 +0000
Subject: [PATCH 29/58] fix: the first Newton step of the Kepler equation
 started from zero instead of the mean anomaly and missed the solution on
 eccentric orbits

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..628a051 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -90,7 +90,7 @@ double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const dou
   double u_rad = 0.0;
 
   for (int i = 0; i < iteration_limit; i++) {
-    u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
+    u_rad = u_prev_rad - (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
 
     double diff_abs_rad = std::abs(u_rad - u_prev_rad);
     if (diff_abs_rad < angle_limit_rad) break;
-- 
2.43.0


From 3cbb5c4a4292e62272fb358e25b49df55f9b10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:07 +0000
Subject: [PATCH 30/58] fix: the right ascension of the ascending node was only
 right in the first and fourth quadrant

---
 src/math_physics/orbit/orbital_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..33bab84 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From 69c2884952fc93a64289229c794cf0bf13cb9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:07 +0000
Subject: [PATCH 31/58] fix: carry a fraction of exactly one second when adding
 epoch times

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..017e390 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
-- 
2.43.0


From b1b41b7a6091102aee902b156392c2ad549a8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:01 +0000
Subject: [PATCH 32/58] fix: the angle of two parallel vectors was not a number
 when the rounding error of its cosine exceeded one

---
 src/math_physics/math/vector_template_functions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..23fe500 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -6,6 +6,7 @@
 #ifndef S2E_LIBRARY_MATH_VECTOR_TFS_HPP_
 #define S2E_LIBRARY_MATH_VECTOR_TFS_HPP_
 
+#include <algorithm>
 #include <cmath>
 
 namespace s2e::math {
@@ -143,7 +144,7 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
-  return acos(cos);
+  return acos(std::max(-1.0, std::min(1.0, cos)));  // The rounding error can lead out of the range
 }
 
 }  // namespace s2e::math
-- 
2.43.0


From a4b44f7c168575533709b2501cd654f84300bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:14 +0000
Subject: [PATCH 33/58] fix: the forbidden angle judgement of the star sensor
 missed a body exactly on the sight line when the rounding error of the cosine
 exceeded one

---
 src/components/real/aocs/star_sensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 8692185..209876b 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "star_sensor.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
@@ -208,7 +209,7 @@ double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>&
   math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
 
   double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
-  double theta_rad = acos(cosTheta);
+  double theta_rad = acos(std::max(-1.0, std::min(1.0, cosTheta)));  // The rounding error can lead out of the range
   return theta_rad;
 }
 
-- 
2.43.0


From 813384e62e9fa54d7e779d16e7db467dcc94dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:14 +0000
Subject: [PATCH 34/58] fix: a panel facing the centre of the earth lost its
 earth radiation when the rounding error of the cosine exceeded one

---
 src/dynamics/thermal/node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..6dba830 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -54,7 +55,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::max(-1.0, std::min(1.0, InnerProduct(sat2earth_direction_b, normal_vector_b_))));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -98,7 +99,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::max(-1.0, std::min(1.0, InnerProduct(earth_direction_b, normal_vector_b_))));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
-- 
2.43.0


From d90f2d4674c0bbfbf6df09271b8642a245e348c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:14 +0000
Subject: [PATCH 35/58] fix: the antenna angles on the boresight were not a
 number when the rounding error of the direction exceeded one

---
 .../real/communication/ground_station_calculator.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 18ef915..80fb015 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -5,6 +5,7 @@
 
 #include "ground_station_calculator.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -81,7 +82,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  double theta_on_sc_antenna_rad = acos(std::max(-1.0, std::min(1.0, gs_direction_on_sc_frame[2])));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +90,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos(std::max(-1.0, std::min(1.0, sc_direction_on_gs_frame[2])));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From 30e07443bb5890c414c629cf5b0a7db69cfe7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 36/58] fix: SP3 velocity files were read with the wrong mode
 and standard deviation columns, and one epoch or satellite was read past the
 end

---
 src/math_physics/gnss/sp3_file_reader.cpp | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..ed6f4fb 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -16,7 +16,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
@@ -116,12 +116,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
@@ -162,7 +156,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
@@ -392,13 +386,21 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   velocity_clock_rate.clock_rate_ = stod(line.substr(46, 14));
 
   // Standard deviations
-  if (line.size() > 60) {
+  if (line.size() > 61) {
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From 563b97397c0e8a420d931892719b6e79e4bad309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 37/58] fix: the last field of a bias SINEX line was skipped
 when the line ended with it

---
 src/math_physics/gnss/bias_sinex_file_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..21d2289 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -193,12 +193,12 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
     solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
     read_point += read_size + 1;
 
-    if (read_point + 21 < line.size()) {
+    if (read_point + 21 <= line.size()) {
       read_size = 21;
       solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
     }
-    if (read_point + 12 < line.size()) {
+    if (read_point + 12 <= line.size()) {
       read_size = 12;
       solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
-- 
2.43.0


From 7cd211465ba4e35909c8a120b5ad7d9c81f56daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 38/58] fix: outside of its table the Harris-Priester density
 was read past the end of the table and not converted to kg/m3

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..20e4b7f 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,8 +55,10 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;
+  if (min_density_itr == harris_priester_min_density_table.end()) {
+    return (prev(min_density_itr)->second + prev(max_density_itr)->second) / 2.0 * 1e-12;
+  }
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From f3307bedd6f85f884de2c5d65f893c83fac5378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 39/58] fix: the density bulge of the Harris-Priester model was
 computed from a sun direction in the inertial and a position in the
 earth-fixed frame

---
 src/environment/local/atmosphere.cpp                  | 4 +++-
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 +++---
 src/math_physics/atmosphere/harris_priester_model.hpp | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..b86f55d 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -69,7 +69,9 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
     math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    math::Vector<3> sun_direction_ecef =
+        local_celestial_information_->GetGlobalInformation().GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 20e4b7f..c480168 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -28,7 +28,7 @@ double CalcScaleHeight_km(const std::map<double, double>::const_iterator density
  */
 double CalcApexDensity_g_km3(const std::map<double, double>::const_iterator density_itr, const double altitude_km);
 
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7, const double exponent_parameter) {
   // Altitude
   double altitude_km = geodetic_position.GetAltitude_m() / 1000.0;
@@ -39,8 +39,8 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   // Phi: angle between the satellite position and apex of the diurnal bulge
   double sun_ra_rad;   //!< Right ascension of the sun phi
   double sun_dec_rad;  //!< Declination of the sun theta
-  sun_ra_rad = atan2(sun_direction_eci[1], sun_direction_eci[0]);
-  sun_dec_rad = atan2(sun_direction_eci[2], sqrt(sun_direction_eci[0] * sun_direction_eci[0] + sun_direction_eci[1] * sun_direction_eci[1]));
+  sun_ra_rad = atan2(sun_direction_ecef[1], sun_direction_ecef[0]);
+  sun_dec_rad = atan2(sun_direction_ecef[2], sqrt(sun_direction_ecef[0] * sun_direction_ecef[0] + sun_direction_ecef[1] * sun_direction_ecef[1]));
   math::Vector<3> apex_direction;
   const double lag_angle_rad = 30.0 * math::deg_to_rad;
   double apex_ra_rad = sun_ra_rad + lag_angle_rad;
diff --git a/src/math_physics/atmosphere/harris_priester_model.hpp b/src/math_physics/atmosphere/harris_priester_model.hpp
index 8b64550..acb89c9 100644
--- a/src/math_physics/atmosphere/harris_priester_model.hpp
+++ b/src/math_physics/atmosphere/harris_priester_model.hpp
@@ -15,12 +15,12 @@ namespace s2e::atmosphere {
  * @fn CalcAirDensityWithHarrisPriester
  * @brief Calculate atmospheric density with Harris-Priester method
  * @param [in] geodetic_position: Spacecraft geodetic position
- * @param [in] sun_direction_eci: Sun direction unit vector in ECI frame
+ * @param [in] sun_direction_ecef: Sun direction unit vector in ECEF frame
  * @param [in] f10_7: F10.7 radiation index (not used now)
  * @param [in] exponent_parameter: n in the equation. n=2 for low inclination orbit and n=6 for polar orbit.
  * @return Atmospheric density [kg/m^3]
  */
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7 = 100.0, const double exponent_parameter = 4);
 
 }  // namespace s2e::atmosphere
-- 
2.43.0


From bd236b1c483384f8a25ccb87280117337afc89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 40/58] fix: a shadow source exactly in front of the sun cast
 no shadow when the rounding error of the cosine exceeded one

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..8c3449b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -74,7 +74,8 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
 
   // Angle of deviation from shadow source center to sun center
   math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_source2sun_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm();
+  const double delta = acos(std::max(-1.0, std::min(1.0, cos_delta)));  // Clamped against the rounding error at the exact alignment
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
-- 
2.43.0


From b244286cf4c1052b362da48aea9e6696f26f8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 41/58] fix: a rectification of the Encke orbit set the
 spacecraft back by one step and dropped the acceleration of that step

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..36b3a9b 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -20,6 +20,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
   propagation_time_s_ = 0.0;
+  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
 
@@ -33,7 +34,9 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
   double norm_difference_position_m = difference_position_i_m_.CalcNorm();
   if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+    // The position and velocity are those of the last propagation time, not of the current time
+    const double propagation_time_jd = current_time_jd - (end_time_s - propagation_time_s_) / (24.0 * 60.0 * 60.0);
+    Initialize(propagation_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
   }
 
   // Update reference orbit
@@ -86,9 +89,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From 41c93877b958e007a3729bb6cf7958b3cd4b2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:59 +0000
Subject: [PATCH 42/58] fix: the last step of the cantilever attitude
 propagation did not end at the requested time but integrated a full step

---
 .../attitude/attitude_with_cantilever_vibration.cpp        | 5 +++--
 .../numerical_integration/numerical_integrator.hpp         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..278902f 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -86,12 +86,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);  // Adjust the last propagation step
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..f05c14a 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,13 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width
+   * @param [in] step_width: Step width. The unit is depending on the independent variable
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From 4ad0e60f65814599c4ae755ca67ddc02191695c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:18 +0000
Subject: [PATCH 43/58] fix: the shadow coefficient was not a number at the
 contacts of the discs when the rounding error of a cosine exceeded one

---
 .../local/solar_radiation_pressure_environment.cpp            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 8c3449b..8f0b208 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -93,7 +93,9 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
-    double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
+    const double angle_sun_rad = acos(std::max(-1.0, std::min(1.0, x / a)));           // Clamped against the rounding error at the contacts
+    const double angle_source_rad = acos(std::max(-1.0, std::min(1.0, (c - x) / b)));  // Clamped against the rounding error at the contacts
+    double A = a * a * angle_sun_rad + b * b * angle_source_rad - c * y;               // The area of the occulted segment of the apparent solar disk
     shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
   } else {  // no occultation takes place
     if (c < (a + b)) {
-- 
2.43.0


From a9584d8282c4c36037e5f49d9a6e10146ce33485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 44/58] fix: the internal heat load was extrapolated from the
 last interval of its time table after every repetition

---
 src/dynamics/thermal/heatload.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..09d4f86 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -45,11 +45,10 @@ void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  // Search the interval from the beginning since the time table is repeated
+  elapsed_time_idx_ = 0;
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From cdca57be8b91d32fe8cac8aa2100a6095c0f6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 45/58] fix: the sun sensor judged the detection with the
 illuminance of the previous measurement

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..c41f0fd 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -67,6 +67,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();   // Calculate the current illuminance before it is judged
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -94,8 +95,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From 76bbdcc848475e3fbe34d7d05d9b0c41300d5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 46/58] fix: the molecular weight in g/mol was used as the mass
 of a molecule in kg in the air drag

---
 src/disturbances/air_drag.cpp                 | 4 ++--
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..ee258d2 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,8 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  double molecular_mass_kg = molecular_weight_g_mol_ * 1.0e-3 / environment::avogadro_constant_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..343ebc6 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_mol, 6.02214076e23L)              //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From 801d37751f11413fd988310e2654ab326afbec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 47/58] fix: the image of a celestial body was half a pixel off
 on a sensor with an odd number of pixels

---
 src/components/real/mission/telescope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..6a3ea80 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -106,8 +106,8 @@ void Telescope::Observe(math::Vector<2>& position_image_sensor, const math::Vect
   double arg_y = atan2(target_c[1], target_c[0]);  // Angle from X-axis on XY plane in the component frame
 
   if (abs(arg_x) < x_field_of_view_rad && abs(arg_y) < y_field_of_view_rad) {
-    position_image_sensor[0] = x_number_of_pix_ / 2 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2;
-    position_image_sensor[1] = y_number_of_pix_ / 2 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2;
+    position_image_sensor[0] = x_number_of_pix_ / 2.0 * tan(arg_x) / tan(x_field_of_view_rad) + x_number_of_pix_ / 2.0;
+    position_image_sensor[1] = y_number_of_pix_ / 2.0 * tan(arg_y) / tan(y_field_of_view_rad) + y_number_of_pix_ / 2.0;
   } else {  // Return -1 when the body is in the out of FoV
     position_image_sensor[0] = -1;
     position_image_sensor[1] = -1;
-- 
2.43.0


From 45b1c532acacee11489cc6318453561ae36d0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:42 +0000
Subject: [PATCH 48/58] fix: a reaction wheel without power kept generating its
 last torque

---
 src/components/real/aocs/reaction_wheel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..43de17c 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,12 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  // The wheel keeps its angular velocity and generates no torque
+  generated_angular_acceleration_rad_s2_ = 0.0;
+  output_torque_b_Nm_ *= 0.0;
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From 95d9ad3668718d244cdf7706f86dca94d6ea6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:42 +0000
Subject: [PATCH 49/58] fix: the direction noise of a thruster shrank with the
 angle of its thrust to the x axis and vanished along it

---
 src/components/real/propulsion/simple_thruster.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..e6b7f51 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -125,10 +125,7 @@ double SimpleThruster::CalcThrustMagnitude() {
 math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
-    math::Vector<3> ex;  // Fixme: to use outer product to generate orthogonal vector
-    ex[0] = 1.0;
-    ex[1] = 0.0;
-    ex[2] = 0.0;
+    math::Vector<3> ex = math::GenerateOrthogonalUnitVector(thrust_dir_b_true);
     int flag = rand() % 2;
     double make_axis_rot_rad;
     if (flag == 0) {
-- 
2.43.0


From 537275479fa2b0c89e73e05832bc76074c8e0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:42 +0000
Subject: [PATCH 50/58] fix: the CSV scenario was read before its first element
 for times before the first row

---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..fcfb6e1 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -89,8 +89,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;  // No data at or before the queried time
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From ea9a80f9b6f496ac920e6b49a73d78ff6fe2aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 51/58] fix: the direction noise of the force and torque
 generators rotated about an axis that was not a unit vector and changed the
 magnitude

---
 src/components/ideal/force_generator.cpp  | 2 ++
 src/components/ideal/torque_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..f564b04 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -100,6 +100,8 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis /= norm_rotation_axis;
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..e9f9fc3 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -74,6 +74,8 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis /= norm_rotation_axis;
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
-- 
2.43.0


From dac94e27bd71d1ddfb41f343d4b653c74064bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 52/58] fix: the uniform quaternion randomization rotated by
 twice the angle and was not uniform

---
 .../initialize_monte_carlo_parameters.cpp                 | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..48527ae 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -248,7 +248,6 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   x_axis[0] = 1.0;
 
   // A direction vector converted from the X-axis by a quaternion may follows the uniform distribution in full sphere.
-  math::Quaternion first_cnv;
   math::Vector<3> x_axis_cnvd;
   double theta = acos(1 - (1 - (-1)) * InitializedMonteCarloParameters::Generate1dUniform(0.0, 1.0));
   double phi = InitializedMonteCarloParameters::Generate1dUniform(0, math::tau);
@@ -256,12 +255,7 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   x_axis_cnvd[1] = sin(theta) * sin(phi);
   x_axis_cnvd[2] = cos(theta);
 
-  double cos_angle_between = InnerProduct(x_axis, x_axis_cnvd);
-  math::Vector<3> op = OuterProduct(x_axis, x_axis_cnvd);
-  for (int i = 0; i < 3; i++) {
-    first_cnv[i] = op[i];
-  }
-  first_cnv[3] = cos_angle_between;
+  math::Quaternion first_cnv(x_axis, x_axis_cnvd);
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From b37e8366a6d85fb4f7258de7665a66fedfa5c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 53/58] fix: the delay buffer of the star sensor was too short
 and accessed out of range for steps longer than one second

---
 src/components/real/aocs/star_sensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 209876b..6ac200c 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -75,6 +75,7 @@ void StarSensor::Initialize() {
 
   // Decide delay buffer size
   max_delay_ = int(output_delay_ * 2 / step_time_s_);
+  if (max_delay_ <= (int)output_delay_) max_delay_ = (int)output_delay_ + 1;  // The output delay is in steps
   if (max_delay_ <= 0) max_delay_ = 1;
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
-- 
2.43.0


From b7ca7f14addcad25e5160bab7747b91241a3dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:31 +0000
Subject: [PATCH 54/58] fix: the GNSS interpolation window lagged behind steps
 longer than an epoch and read past the last SP3 file

---
 src/environment/global/gnss_satellites.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 34471ce..32ca189 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -67,10 +67,10 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
   current_epoch_time_ = time_system::EpochTime(current_date_time);
 
   // Check interpolation update
+  if (orbit_.empty()) return;
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > orbit_[0].GetTimeList()[4]) {
+    if (!UpdateInterpolationInformation()) break;
   }
 
   return;
@@ -128,6 +128,7 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
+  if (sp3_file_id_ >= sp3_files_.size()) return false;
   Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-- 
2.43.0


From d76a9ad649ab892ddf05d33a77be0164d142e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:31 +0000
Subject: [PATCH 55/58] fix: the end of the Hipparcos catalogue was taken as
 one more star with undefined data

---
 src/environment/global/hipparcos_catalogue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..eea0027 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -32,11 +32,10 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
   std::string title;
   ifs >> title;  // Skip title
-  while (!ifs.eof()) {
+  std::string line;
+  while (ifs >> line) {
     HipparcosData hipparcos_data;
 
-    std::string line;
-    ifs >> line;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
-- 
2.43.0


From 659c618f45046684a8dfe8b2f4f01883efbf0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 56/58] fix: the interpolation window of the time series orbit
 lagged behind steps longer than the interval of the file

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 9924935..57e8351 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -90,8 +90,8 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id = static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0));
+  while (diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id] && reference_interpolation_id_ < time_series_data_.size()) {
     UpdateInterpolationInformation();
   }
   if (diff_s < 0.0) {
-- 
2.43.0


From f258d7fd2fbaf3926702655514cc2f1c8f1d3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 57/58] fix: the initial position and velocity of an orbit were
 read from the section ORBIT whatever section was requested

---
 src/dynamics/orbit/initialize_orbit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/initialize_orbit.cpp b/src/dynamics/orbit/initialize_orbit.cpp
index e039adb..32c7f08 100644
--- a/src/dynamics/orbit/initialize_orbit.cpp
+++ b/src/dynamics/orbit/initialize_orbit.cpp
@@ -31,7 +31,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize RK4 orbit propagator
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -91,7 +91,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize orbit for Encke's method
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -116,7 +116,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
 
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
-- 
2.43.0


From d9304f460378c82baf6a291e8f9b0113be286583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 58/58] fix: endian_memcpy copied one byte when none was
 requested

---
 src/utilities/endian.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..c340461 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,12 +15,8 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
-  }
-
-  for (i = 0; i <= size; i++) {
-    *(dst_ + (size - i)) = *(src_ + i);
+  for (i = 0; i < size; i++) {
+    *(dst_ + (size - 1 - i)) = *(src_ + i);
   }
 
   return dst;
-- 
2.43.0

