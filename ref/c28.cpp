// Reference specification for C28 (parsed, never compiled to code or run).
#include "base.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <regex>
#include <sstream>
#include "components/base/gpio_connection_with_obc.hpp"
#include "components/base/i2c_controller.hpp"
#include "components/base/i2c_target_communication_with_obc.hpp"
#include "components/base/uart_communication_with_obc.hpp"
#include "components/examples/example_change_structure.hpp"
#include "components/examples/example_i2c_controller_for_hils.hpp"
#include "components/examples/example_i2c_target_for_hils.hpp"
#include "components/examples/example_serial_communication_for_hils.hpp"
#include "components/examples/example_serial_communication_with_obc.hpp"
#include "components/ports/gpio_port.hpp"
#include "components/ports/i2c_port.hpp"
#include "components/ports/uart_port.hpp"
#include "components/real/cdh/on_board_computer.hpp"
#include "components/real/cdh/on_board_computer_with_c2a.hpp"
#include "components/real/communication/wings_command_sender_to_c2a.hpp"
#include "math_physics/math/matrix.hpp"
#include "setting_file_reader/c2a_command_database.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "setting_file_reader/wings_operation_file.hpp"
#include "utilities/endian.hpp"
#include "utilities/macros.hpp"
#include "utilities/quantization.hpp"
#include "utilities/ring_buffer.hpp"
#include "utilities/slip.hpp"
// ---------------------------------------------------------------- components/base/gpio_connection_with_obc.cpp
namespace s2e::components::ref {
//= s2e::components::GpioConnectionWithObc::GpioConnectionWithObc
void GpioConnectionWithObc_Ctor(GpioConnectionWithObc* self, const std::vector<int> port_id, OnBoardComputer* obc) {
  self->port_id_ = port_id;
  self->obc_ = obc;

  for (size_t i = 0; i < self->port_id_.size(); i++) {
    self->obc_->GpioConnectPort(self->port_id_[i]);
  }
}
//= s2e::components::GpioConnectionWithObc::Read
bool GpioConnectionWithObc_Read(GpioConnectionWithObc* self, const int index) { return self->obc_->GpioComponentRead(self->port_id_[index]); }
//= s2e::components::GpioConnectionWithObc::Write
void GpioConnectionWithObc_Write(GpioConnectionWithObc* self, const int index, const bool is_high) { self->obc_->GpioComponentWrite(self->port_id_[index], is_high); }
}

// ---------------------------------------------------------------- components/base/i2c_controller.cpp
namespace s2e::components::ref {
//= s2e::components::I2cController::I2cController
void I2cController_Ctor(I2cController* self, const unsigned int hils_port_id, const unsigned int baud_rate, const unsigned int tx_buffer_size, const unsigned int rx_buffer_size, simulation::HilsPortManager* hils_port_manager) {
  self->hils_port_id_ = hils_port_id;
  self->baud_rate_ = baud_rate;
  self->tx_buffer_size_ = tx_buffer_size;
  self->rx_buffer_size_ = rx_buffer_size;
  self->simulation_mode_ = SimulationMode::kError;
  self->hils_port_manager_ = hils_port_manager;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kHils;
  int ret = hils_port_manager_->I2cControllerConnectComPort(hils_port_id_, baud_rate_, tx_buffer_size_, rx_buffer_size_);
  if (ret != 0) {
    std::cout << "Error: I2cCommunication ConnectComPort ID:" << hils_port_id_ << "\n";
  }
#else
  UNUSED(self->baud_rate_);
  UNUSED(self->tx_buffer_size_);
  UNUSED(self->rx_buffer_size_);
  UNUSED(self->hils_port_manager_);
  self->simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:OFF Check compo initialization");
#endif
}
//= s2e::components::I2cController::ReceiveTelemetry
int I2cController_ReceiveTelemetry(I2cController* self, const unsigned char length) {
  if (self->simulation_mode_ != SimulationMode::kHils) return -1;
  return self->hils_port_manager_->I2cControllerReceive(self->hils_port_id_, &self->rx_buffer_.front(), 0, length);
}
//= s2e::components::I2cController::SendCommand
int I2cController_SendCommand(I2cController* self, const unsigned char length) {
  if (self->simulation_mode_ != SimulationMode::kHils) return -1;
  return self->hils_port_manager_->I2cControllerSend(self->hils_port_id_, &self->tx_buffer_.front(), 0, length);
}
}

// ---------------------------------------------------------------- components/base/i2c_target_communication_with_obc.cpp
namespace s2e::components::ref {
//= s2e::components::I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(constunsignedint,constunsignedchar,s2e::components::OnBoardComputer*)
void I2cTargetCommunicationWithObc_Ctor(I2cTargetCommunicationWithObc* self, const unsigned int sils_port_id, const unsigned char i2c_address, OnBoardComputer* obc) {
  self->sils_port_id_ = sils_port_id;
  self->i2c_address_ = i2c_address;
  self->is_moved_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->obc_ = obc;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:ON Check compo initialization\n");
#else
  self->simulation_mode_ = SimulationMode::kSils;
  self->obc_->I2cConnectPort(self->sils_port_id_, self->i2c_address_);
#endif
}
//= s2e::components::I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(constunsignedint,constunsignedchar,s2e::simulation::HilsPortManager*)
void I2cTargetCommunicationWithObc_Ctor2(I2cTargetCommunicationWithObc* self, const unsigned int hils_port_id, const unsigned char i2c_address, simulation::HilsPortManager* hils_port_manager) {
  self->hils_port_id_ = hils_port_id;
  self->i2c_address_ = i2c_address;
  self->is_moved_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->hils_port_manager_ = hils_port_manager;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kHils;
  int ret = hils_port_manager_->I2cTargetConnectComPort(hils_port_id_);
  if (ret != 0) {
    std::cout << "Error: ObcI2cTargetCommunication ConnectComPort ID:" << hils_port_id_ << "\n";
  }
#else
  self->simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:OFF Check compo initialization\n");
#endif
}
//= s2e::components::I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(constunsignedint,constunsignedint,constunsignedchar,s2e::components::OnBoardComputer*,s2e::simulation::HilsPortManager*)
void I2cTargetCommunicationWithObc_Ctor3(I2cTargetCommunicationWithObc* self, const unsigned int sils_port_id, const unsigned int hils_port_id, const unsigned char i2c_address, OnBoardComputer* obc, simulation::HilsPortManager* hils_port_manager) {
  self->sils_port_id_ = sils_port_id;
  self->hils_port_id_ = hils_port_id;
  self->i2c_address_ = i2c_address;
  self->is_moved_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->obc_ = obc;
  self->hils_port_manager_ = hils_port_manager;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kHils;
  int ret = hils_port_manager_->I2cTargetConnectComPort(hils_port_id_);
  if (ret != 0) {
    std::cout << "Error: ObcI2cTargetCommunication ConnectComPort ID:" << hils_port_id_ << "\n";
  }
#else
  self->simulation_mode_ = SimulationMode::kSils;
  self->obc_->I2cConnectPort(self->sils_port_id_, self->i2c_address_);
#endif
}
//= s2e::components::I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(s2e::components::I2cTargetCommunicationWithObc&&)
void I2cTargetCommunicationWithObc_Ctor4(I2cTargetCommunicationWithObc* self, I2cTargetCommunicationWithObc&& object) {
  self->sils_port_id_ = object.sils_port_id_;
  self->hils_port_id_ = object.hils_port_id_;
  self->i2c_address_ = object.i2c_address_;
  self->is_moved_ = false;
  self->simulation_mode_ = object.simulation_mode_;
  self->obc_ = object.obc_;
  self->hils_port_manager_ = object.hils_port_manager_;

  object.is_moved_ = true;
  object.obc_ = nullptr;
  object.hils_port_manager_ = nullptr;
}
//= s2e::components::I2cTargetCommunicationWithObc::ReadRegister
void I2cTargetCommunicationWithObc_ReadRegister(I2cTargetCommunicationWithObc* self, const unsigned char register_address, unsigned char* data, const unsigned char length) {
  switch (self->simulation_mode_) {
    case SimulationMode::kError:
      break;
    case SimulationMode::kSils:
      self->obc_->I2cComponentReadRegister(self->sils_port_id_, self->i2c_address_, register_address, data, length);
      break;
    case SimulationMode::kHils:
      self->hils_port_manager_->I2cTargetReadRegister(self->hils_port_id_, register_address, data, length);
      break;
    default:
      // NOT REACHED
      break;
  }
}
//= s2e::components::I2cTargetCommunicationWithObc::WriteRegister
void I2cTargetCommunicationWithObc_WriteRegister(I2cTargetCommunicationWithObc* self, const unsigned char register_address, const unsigned char* data, const unsigned char length) {
  switch (self->simulation_mode_) {
    case SimulationMode::kError:
      break;
    case SimulationMode::kSils:
      self->obc_->I2cComponentWriteRegister(self->sils_port_id_, self->i2c_address_, register_address, data, length);
      break;
    case SimulationMode::kHils:
      self->hils_port_manager_->I2cTargetWriteRegister(self->hils_port_id_, register_address, data, length);
      break;
    default:
      // NOT REACHED
      break;
  }
}
//= s2e::components::I2cTargetCommunicationWithObc::ReadCommand
void I2cTargetCommunicationWithObc_ReadCommand(I2cTargetCommunicationWithObc* self, unsigned char* data, const unsigned char length) {
  switch (self->simulation_mode_) {
    case SimulationMode::kError:
      break;
    case SimulationMode::kSils:
      self->obc_->I2cComponentReadCommand(self->sils_port_id_, self->i2c_address_, data, length);
      break;
    case SimulationMode::kHils:
      self->hils_port_manager_->I2cTargetReadCommand(self->hils_port_id_, data, length);
      break;
    default:
      // NOT REACHED
      break;
  }
}
//= s2e::components::I2cTargetCommunicationWithObc::ReceiveCommand
int I2cTargetCommunicationWithObc_ReceiveCommand(I2cTargetCommunicationWithObc* self) {
  if (self->simulation_mode_ != SimulationMode::kHils) return -1;
  return self->hils_port_manager_->I2cTargetReceive(self->hils_port_id_);
}
//= s2e::components::I2cTargetCommunicationWithObc::SendTelemetry
int I2cTargetCommunicationWithObc_SendTelemetry(I2cTargetCommunicationWithObc* self, const unsigned char length) {
  if (self->simulation_mode_ != SimulationMode::kHils) return -1;
  return self->hils_port_manager_->I2cTargetSend(self->hils_port_id_, length);
}
//= s2e::components::I2cTargetCommunicationWithObc::GetStoredFrameCounter
int I2cTargetCommunicationWithObc_GetStoredFrameCounter(I2cTargetCommunicationWithObc* self) {
  if (self->simulation_mode_ != SimulationMode::kHils) return -1;
  return self->hils_port_manager_->I2cTargetGetStoredFrameCounter(self->hils_port_id_);
}
//= s2e::components::I2cTargetCommunicationWithObc::StoreTelemetry
int I2cTargetCommunicationWithObc_StoreTelemetry(I2cTargetCommunicationWithObc* self, const unsigned int stored_frame_num, const unsigned char tlm_size) {
  if (self->simulation_mode_ != SimulationMode::kHils) return -1;
  int additional_frame_num = stored_frame_num - self->GetStoredFrameCounter();
  if (additional_frame_num <= 0) return -1;

  // store telemetry in converter up to stored_frame_num
  for (int i = 0; i < additional_frame_num; i++) {
    self->SendTelemetry(tlm_size);
  }
  return 0;
}
}

// ---------------------------------------------------------------- components/base/uart_communication_with_obc.cpp
namespace s2e::components::ref {
//= s2e::components::UartCommunicationWithObc::UartCommunicationWithObc(constunsignedint,s2e::components::OnBoardComputer*)
void UartCommunicationWithObc_Ctor(UartCommunicationWithObc* self, const unsigned int sils_port_id, OnBoardComputer* obc) {
  self->sils_port_id_ = sils_port_id;
  self->is_connected_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->obc_ = obc;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:ON Check compo initialization\n");
#else
  self->simulation_mode_ = SimulationMode::kSils;
#endif
  self->tx_buffer_size_ = self->kDefaultBufferSize;
  self->rx_buffer_size_ = self->kDefaultBufferSize;
  self->InitializeObcComBase();
}
//= s2e::components::UartCommunicationWithObc::UartCommunicationWithObc(constunsignedint,constunsignedint,constunsignedint,s2e::components::OnBoardComputer*)
void UartCommunicationWithObc_Ctor2(UartCommunicationWithObc* self, const unsigned int sils_port_id, const unsigned int tx_buffer_size, const unsigned int rx_buffer_size, OnBoardComputer* obc) {
  self->sils_port_id_ = sils_port_id;
  self->tx_buffer_size_ = tx_buffer_size;
  self->rx_buffer_size_ = rx_buffer_size;
  self->is_connected_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->obc_ = obc;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:ON Check compo initialization\n");
#else
  self->simulation_mode_ = SimulationMode::kSils;
#endif
  if (self->tx_buffer_size_ > self->kDefaultBufferSize) self->tx_buffer_size_ = self->kDefaultBufferSize;
  if (self->rx_buffer_size_ > self->kDefaultBufferSize) self->rx_buffer_size_ = self->kDefaultBufferSize;
  self->InitializeObcComBase();
}
//= s2e::components::UartCommunicationWithObc::UartCommunicationWithObc(constunsignedint,constunsignedint,s2e::simulation::HilsPortManager*)
void UartCommunicationWithObc_Ctor3(UartCommunicationWithObc* self, const unsigned int hils_port_id, const unsigned int baud_rate, simulation::HilsPortManager* hils_port_manager) {
  self->hils_port_id_ = hils_port_id;
  self->baud_rate_ = baud_rate;
  self->is_connected_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->hils_port_manager_ = hils_port_manager;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kHils;
#else
  self->simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:OFF Check compo initialization\n");
#endif
  self->tx_buffer_size_ = self->kDefaultBufferSize;
  self->rx_buffer_size_ = self->kDefaultBufferSize;
  self->InitializeObcComBase();
}
//= s2e::components::UartCommunicationWithObc::UartCommunicationWithObc(constunsignedint,constunsignedint,constunsignedint,constunsignedint,s2e::simulation::HilsPortManager*)
void UartCommunicationWithObc_Ctor4(UartCommunicationWithObc* self, const unsigned int hils_port_id, const unsigned int baud_rate, const unsigned int tx_buffer_size, const unsigned int rx_buffer_size, simulation::HilsPortManager* hils_port_manager) {
  self->hils_port_id_ = hils_port_id;
  self->baud_rate_ = baud_rate;
  self->tx_buffer_size_ = tx_buffer_size;
  self->rx_buffer_size_ = rx_buffer_size;
  self->is_connected_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->hils_port_manager_ = hils_port_manager;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kHils;
#else
  self->simulation_mode_ = SimulationMode::kError;
  printf("Error: USE_HILS:OFF Check compo initialization\n");
#endif
  if (self->tx_buffer_size_ > self->kDefaultBufferSize) self->tx_buffer_size_ = self->kDefaultBufferSize;
  if (self->rx_buffer_size_ > self->kDefaultBufferSize) self->rx_buffer_size_ = self->kDefaultBufferSize;
  self->InitializeObcComBase();
}
//= s2e::components::UartCommunicationWithObc::UartCommunicationWithObc(constint,s2e::components::OnBoardComputer*,constunsignedint,constunsignedint,s2e::simulation::HilsPortManager*)
void UartCommunicationWithObc_Ctor5(UartCommunicationWithObc* self, const int sils_port_id, OnBoardComputer* obc, const unsigned int hils_port_id, const unsigned int baud_rate, simulation::HilsPortManager* hils_port_manager) {
  self->sils_port_id_ = sils_port_id;
  self->hils_port_id_ = hils_port_id;
  self->baud_rate_ = baud_rate;
  self->is_connected_ = false;
  self->simulation_mode_ = SimulationMode::kError;
  self->obc_ = obc;
  self->hils_port_manager_ = hils_port_manager;

#ifdef USE_HILS
  simulation_mode_ = SimulationMode::kHils;
#else
  self->simulation_mode_ = SimulationMode::kSils;
#endif
  self->tx_buffer_size_ = self->kDefaultBufferSize;
  self->rx_buffer_size_ = self->kDefaultBufferSize;
  self->InitializeObcComBase();
}
//= s2e::components::UartCommunicationWithObc::InitializeObcComBase
void UartCommunicationWithObc_InitializeObcComBase(UartCommunicationWithObc* self) {
  self->tx_buffer_.resize(self->tx_buffer_size_);
  self->rx_buffer_.resize(self->rx_buffer_size_);
  int ret;
  switch (self->simulation_mode_) {
    case SimulationMode::kError:
      break;
    case SimulationMode::kSils:
      ret = self->obc_->ConnectComPort(self->sils_port_id_, self->tx_buffer_size_, self->rx_buffer_size_);
      if (ret != 0) {
        std::cout << "Already connected: ObcCommunication ConnectComPort ID:" << self->sils_port_id_ << "\n";
        self->is_connected_ = false;
      } else {
        self->is_connected_ = true;
      }
      break;
    case SimulationMode::kHils:
      ret = self->hils_port_manager_->UartConnectComPort(self->hils_port_id_, self->baud_rate_, self->tx_buffer_size_, self->rx_buffer_size_);
      if (ret != 0) {
        std::cout << "Error: ObcCommunication ConnectComPort ID:" << self->hils_port_id_ << "\n";
        self->is_connected_ = false;
      } else {
        self->is_connected_ = true;
      }
      break;
    default:
      // NOT REACHED
      break;
  }
}
//= s2e::components::UartCommunicationWithObc::ReceiveCommand
int UartCommunicationWithObc_ReceiveCommand(UartCommunicationWithObc* self, const unsigned int offset, const unsigned int rec_size) {
  if (self->simulation_mode_ == SimulationMode::kError) return -1;
  if (offset > self->rx_buffer_size_) return -1;
  if (offset + rec_size > self->rx_buffer_size_) return -1;
  self->rx_buffer_.resize(offset + rec_size);

  int ret;
  switch (self->simulation_mode_) {
    case SimulationMode::kSils:
      ret = self->obc_->ReceivedByCompo(self->sils_port_id_, &self->rx_buffer_.front(), offset, rec_size);
      if (ret == 0) return 0;  // No read data
      return self->ParseCommand(ret);
    case SimulationMode::kHils:
      ret = self->hils_port_manager_->UartReceive(self->hils_port_id_, &self->rx_buffer_.front(), offset, rec_size);
      if (ret == 0) return 0;  // No read data
      return self->ParseCommand(ret);
    default:
      // NOT REACHED
      return -1;
      ;
  }
}
//= s2e::components::UartCommunicationWithObc::SendTelemetry
int UartCommunicationWithObc_SendTelemetry(UartCommunicationWithObc* self, const unsigned int offset) {
  if (self->simulation_mode_ == SimulationMode::kError) return -1;
  int tlm_size = self->GenerateTelemetry();
  if (offset > self->tx_buffer_size_) return -1;
  if (offset + tlm_size > self->tx_buffer_size_) return -1;

  switch (self->simulation_mode_) {
    case SimulationMode::kSils:
      self->obc_->SendFromCompo(self->sils_port_id_, &self->tx_buffer_.front(), offset, tlm_size);
      return 0;
    case SimulationMode::kHils:
      self->hils_port_manager_->UartSend(self->hils_port_id_, &self->tx_buffer_.front(), offset, tlm_size);
      return 0;
    default:
      // NOT REACHED
      return -1;
  }
}
}

// ---------------------------------------------------------------- components/ports/gpio_port.cpp
namespace s2e::components::ref {
//= s2e::components::GpioPort::GpioPort
void GpioPort_Ctor(GpioPort* self, const unsigned int port_id, IGPIOCompo* component) {
  const_cast<unsigned int&>(self->kPortId) = port_id;

  self->high_low_state_ = GPIO_LOW;
  self->component_ = component;
}
//= s2e::components::GpioPort::DigitalWrite
int GpioPort_DigitalWrite(GpioPort* self, const bool is_high) {
  if (self->high_low_state_ != is_high) {
    // Call interaction function when detecting the change of the HIGH/LOW state
    if (self->component_ != nullptr) {
      self->component_->GpioStateChanged(self->kPortId, is_high);
    }
  }
  self->high_low_state_ = is_high;
  return 0;
}
//= s2e::components::GpioPort::DigitalRead
bool GpioPort_DigitalRead(GpioPort* self) { return self->high_low_state_; }
}

// ---------------------------------------------------------------- components/ports/i2c_port.cpp
namespace s2e::components::ref {
//= s2e::components::I2cPort::I2cPort()
void I2cPort_Ctor(I2cPort* self) {
  self->max_register_number_ = 0xff;
  self->saved_register_address_ = 0x00;
}
//= s2e::components::I2cPort::I2cPort(constunsignedchar)
void I2cPort_Ctor2(I2cPort* self, const unsigned char max_register_number) {
  self->max_register_number_ = max_register_number;
  self->saved_register_address_ = 0x00;
}
//= s2e::components::I2cPort::RegisterDevice
void I2cPort_RegisterDevice(I2cPort* self, const unsigned char i2c_address) {
  for (unsigned char i = 0; i < self->max_register_number_; i++) {
    self->device_registers_[std::make_pair(i2c_address, i)] = 0x00;
  }
  for (unsigned char i = 0; i < self->kDefaultCmdBufferSize; i++) {
    self->command_buffer_[std::make_pair(i2c_address, i)] = 0x00;
  }
}
//= s2e::components::I2cPort::WriteRegister(constunsignedchar,constunsignedchar)
int I2cPort_WriteRegister(I2cPort* self, const unsigned char i2c_address, const unsigned char register_address) {
  UNUSED(i2c_address);  // TODO: consider this argument is really needed.

  if (register_address >= self->max_register_number_) return 0;
  self->saved_register_address_ = register_address;
  return 1;
}
//= s2e::components::I2cPort::WriteRegister(constunsignedchar,constunsignedchar,constunsignedchar)
int I2cPort_WriteRegister2(I2cPort* self, const unsigned char i2c_address, const unsigned char register_address, const unsigned char value) {
  if (register_address >= self->max_register_number_) return 0;
  self->saved_register_address_ = register_address;
  self->device_registers_[std::make_pair(i2c_address, register_address)] = value;
  return 1;
}
//= s2e::components::I2cPort::ReadRegister(constunsignedchar)
unsigned char I2cPort_ReadRegister(I2cPort* self, const unsigned char i2c_address) {
  unsigned char ret = self->device_registers_[std::make_pair(i2c_address, self->saved_register_address_)];
  self->saved_register_address_++;
  if (self->saved_register_address_ >= self->max_register_number_) self->saved_register_address_ = 0;
  return ret;
}
//= s2e::components::I2cPort::ReadRegister(constunsignedchar,constunsignedchar)
unsigned char I2cPort_ReadRegister2(I2cPort* self, const unsigned char i2c_address, const unsigned char register_address) {
  if (register_address >= self->max_register_number_) return 0;
  self->saved_register_address_ = register_address;
  unsigned char ret = self->device_registers_[std::make_pair(i2c_address, self->saved_register_address_)];
  return ret;
}
//= s2e::components::I2cPort::WriteCommand
unsigned char I2cPort_WriteCommand(I2cPort* self, const unsigned char i2c_address, const unsigned char* tx_data, const unsigned char length) {
  if (length > self->kDefaultCmdBufferSize) {
    return 0;
  }
  for (unsigned char i = 0; i < length; i++) {
    self->command_buffer_[std::make_pair(i2c_address, i)] = tx_data[i];
  }

  if (length == 1)  // length == 1 means setting of read register address
  {
    self->WriteRegister(i2c_address, tx_data[0]);
  }

  if (length == 2)  // length ==2 means setting specific register. FIXME: this rule is not general.
  {
    self->WriteRegister(i2c_address, tx_data[0], tx_data[1]);
  }
  return length;
}
//= s2e::components::I2cPort::ReadCommand
unsigned char I2cPort_ReadCommand(I2cPort* self, const unsigned char i2c_address, unsigned char* rx_data, const unsigned char length) {
  if (length > self->kDefaultCmdBufferSize) {
    return 0;
  }
  for (unsigned char i = 0; i < length; i++) {
    rx_data[i] = self->command_buffer_[std::make_pair(i2c_address, i)];
  }
  return length;
}
}

// ---------------------------------------------------------------- components/ports/uart_port.cpp
namespace s2e::components::ref {
//= s2e::components::UartPort::UartPort()
void UartPort_Ctor(UartPort* self) {
  self->rx_buffer_ = new utilities::RingBuffer(UartPort::kDefaultBufferSize);
  self->tx_buffer_ = new utilities::RingBuffer(UartPort::kDefaultBufferSize);
}
//= s2e::components::UartPort::UartPort(constunsignedint,constunsignedint)
void UartPort_Ctor2(UartPort* self, const unsigned int rx_buffer_size, const unsigned int tx_buffer_size) {
  unsigned int checked_rx_buffer_size = rx_buffer_size;
  unsigned int checked_tx_buffer_size = tx_buffer_size;
  if (rx_buffer_size <= 0) checked_rx_buffer_size = UartPort::kDefaultBufferSize;
  if (tx_buffer_size <= 0) checked_tx_buffer_size = UartPort::kDefaultBufferSize;
  self->rx_buffer_ = new utilities::RingBuffer(checked_rx_buffer_size);
  self->tx_buffer_ = new utilities::RingBuffer(checked_tx_buffer_size);
}
//= s2e::components::UartPort::WriteTx
int UartPort_WriteTx(UartPort* self, const unsigned char* buffer, const unsigned int offset, const unsigned int data_length) {
  return self->tx_buffer_->Write(buffer, offset, data_length);
}
//= s2e::components::UartPort::WriteRx
int UartPort_WriteRx(UartPort* self, const unsigned char* buffer, const unsigned int offset, const unsigned int data_length) {
  return self->rx_buffer_->Write(buffer, offset, data_length);
}
//= s2e::components::UartPort::ReadTx
int UartPort_ReadTx(UartPort* self, unsigned char* buffer, const unsigned int offset, const unsigned int data_length) {
  return self->tx_buffer_->Read(buffer, offset, data_length);
}
//= s2e::components::UartPort::ReadRx
int UartPort_ReadRx(UartPort* self, unsigned char* buffer, const unsigned int offset, const unsigned int data_length) {
  return self->rx_buffer_->Read(buffer, offset, data_length);
}
}

// ---------------------------------------------------------------- components/real/cdh/on_board_computer.cpp
namespace s2e::components::ref {
//= s2e::components::OnBoardComputer::OnBoardComputer(s2e::environment::ClockGenerator*)
void OnBoardComputer_Ctor(OnBoardComputer* self, environment::ClockGenerator* clock_generator) {
  Component_Ctor(self, 1, clock_generator);
 self->Initialize(); }
//= s2e::components::OnBoardComputer::OnBoardComputer(int,s2e::environment::ClockGenerator*,s2e::components::PowerPort*)
void OnBoardComputer_Ctor2(OnBoardComputer* self, int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port) {
  Component_Ctor(self, prescaler, clock_generator, power_port);

  self->Initialize();
}
//= s2e::components::OnBoardComputer::OnBoardComputer(int,s2e::environment::ClockGenerator*,s2e::components::PowerPort*,constdouble,constdouble)
void OnBoardComputer_Ctor3(OnBoardComputer* self, int prescaler, environment::ClockGenerator* clock_generator, PowerPort* power_port, const double minimum_voltage_V, const double assumed_power_consumption_W) {
  Component_Ctor(self, prescaler, clock_generator, power_port);

  self->power_port_->SetMinimumVoltage_V(minimum_voltage_V);
  self->power_port_->SetAssumedPowerConsumption_W(assumed_power_consumption_W);
  self->Initialize();
}
//= s2e::components::OnBoardComputer::Initialize
void OnBoardComputer_Initialize(OnBoardComputer* self) {}
//= s2e::components::OnBoardComputer::MainRoutine
void OnBoardComputer_MainRoutine(OnBoardComputer* self, const int time_count) { UNUSED(time_count); }
//= s2e::components::OnBoardComputer::ConnectComPort
int OnBoardComputer_ConnectComPort(OnBoardComputer* self, int port_id, int tx_buffer_size, int rx_buffer_size) {
  if (self->uart_ports_[port_id] != nullptr) {
    // Port already used
    return -1;
  }
  self->uart_ports_[port_id] = new UartPort(tx_buffer_size, rx_buffer_size);
  return 0;
}
//= s2e::components::OnBoardComputer::CloseComPort
int OnBoardComputer_CloseComPort(OnBoardComputer* self, int port_id) {
  // Port not used
  if (self->uart_ports_[port_id] == nullptr) return -1;

  UartPort* port = self->uart_ports_.at(port_id);
  delete port;
  self->uart_ports_.erase(port_id);
  return 0;
}
//= s2e::components::OnBoardComputer::SendFromObc
int OnBoardComputer_SendFromObc(OnBoardComputer* self, int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = self->uart_ports_[port_id];
  if (port == nullptr) return -1;
  return port->WriteTx(buffer, offset, length);
}
//= s2e::components::OnBoardComputer::ReceivedByCompo
int OnBoardComputer_ReceivedByCompo(OnBoardComputer* self, int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = self->uart_ports_[port_id];
  if (port == nullptr) return -1;
  return port->ReadTx(buffer, offset, length);
}
//= s2e::components::OnBoardComputer::SendFromCompo
int OnBoardComputer_SendFromCompo(OnBoardComputer* self, int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = self->uart_ports_[port_id];
  if (port == nullptr) return -1;
  return port->WriteRx(buffer, offset, length);
}
//= s2e::components::OnBoardComputer::ReceivedByObc
int OnBoardComputer_ReceivedByObc(OnBoardComputer* self, int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = self->uart_ports_[port_id];
  if (port == nullptr) return -1;
  return port->ReadRx(buffer, offset, length);
}
//= s2e::components::OnBoardComputer::I2cConnectPort
int OnBoardComputer_I2cConnectPort(OnBoardComputer* self, int port_id, const unsigned char i2c_address) {
  if (self->i2c_ports_[port_id] != nullptr) {
    // Port already used
  } else {
    self->i2c_ports_[port_id] = new I2cPort();
  }
  self->i2c_ports_[port_id]->RegisterDevice(i2c_address);

  return 0;
}
//= s2e::components::OnBoardComputer::I2cCloseComPort
int OnBoardComputer_I2cCloseComPort(OnBoardComputer* self, int port_id) {
  // Port not used
  if (self->i2c_ports_[port_id] == nullptr) return -1;

  I2cPort* port = self->i2c_ports_.at(port_id);
  delete port;
  self->i2c_ports_.erase(port_id);
  return 0;
}
//= s2e::components::OnBoardComputer::I2cComponentWriteRegister
int OnBoardComputer_I2cComponentWriteRegister(OnBoardComputer* self, int port_id, const unsigned char i2c_address, const unsigned char register_address, const unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = self->i2c_ports_[port_id];
  if (i2c_port == nullptr) return -1;
  for (int i = 0; i < length; i++) {
    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
  }
  return 0;
}
//= s2e::components::OnBoardComputer::I2cComponentReadRegister
int OnBoardComputer_I2cComponentReadRegister(OnBoardComputer* self, int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = self->i2c_ports_[port_id];
  if (i2c_port == nullptr) return -1;
  for (int i = 0; i < length; i++) {
    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
  }
  return 0;
}
//= s2e::components::OnBoardComputer::I2cComponentReadCommand
int OnBoardComputer_I2cComponentReadCommand(OnBoardComputer* self, int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = self->i2c_ports_[port_id];
  if (i2c_port == nullptr) return -1;
  i2c_port->ReadCommand(i2c_address, data, length);
  return 0;
}
//= s2e::components::OnBoardComputer::GpioConnectPort
int OnBoardComputer_GpioConnectPort(OnBoardComputer* self, int port_id) {
  if (self->gpio_ports_[port_id] != nullptr) {
    // Port already used
    return -1;
  }
  self->gpio_ports_[port_id] = new GpioPort(port_id);
  return 0;
}
//= s2e::components::OnBoardComputer::GpioComponentWrite
int OnBoardComputer_GpioComponentWrite(OnBoardComputer* self, int port_id, const bool is_high) {
  GpioPort* port = self->gpio_ports_[port_id];
  if (port == nullptr) return -1;
  return port->DigitalWrite(is_high);
}
//= s2e::components::OnBoardComputer::GpioComponentRead
bool OnBoardComputer_GpioComponentRead(OnBoardComputer* self, int port_id) {
  GpioPort* port = self->gpio_ports_[port_id];
  if (port == nullptr) return false;
  return port->DigitalRead();
}
}

// ---------------------------------------------------------------- components/real/cdh/on_board_computer_with_c2a.cpp
namespace s2e::components::ref {
//= s2e::components::ObcWithC2a::ObcWithC2a(s2e::environment::ClockGenerator*)
void ObcWithC2a_Ctor(ObcWithC2a* self, environment::ClockGenerator* clock_generator) {
  OnBoardComputer_Ctor(self, clock_generator);
  self->is_initialized = false;
  const_cast<int&>(self->timing_regulator_) = 1;

  // Initialize();
}
//= s2e::components::ObcWithC2a::ObcWithC2a(s2e::environment::ClockGenerator*,int)
void ObcWithC2a_Ctor2(ObcWithC2a* self, environment::ClockGenerator* clock_generator, int timing_regulator) {
  OnBoardComputer_Ctor(self, clock_generator);
  self->is_initialized = false;
  const_cast<int&>(self->timing_regulator_) = timing_regulator;

  // Initialize();
}
//= s2e::components::ObcWithC2a::ObcWithC2a(int,s2e::environment::ClockGenerator*,int,s2e::components::PowerPort*)
void ObcWithC2a_Ctor3(ObcWithC2a* self, int prescaler, environment::ClockGenerator* clock_generator, int timing_regulator, PowerPort* power_port) {
  OnBoardComputer_Ctor2(self, prescaler, clock_generator, power_port);
  self->is_initialized = false;
  const_cast<int&>(self->timing_regulator_) = timing_regulator;

  // Initialize();
}
//= s2e::components::ObcWithC2a::Initialize
void ObcWithC2a_Initialize(ObcWithC2a* self) {
#ifdef USE_C2A
  TMGR_init();  // Time Manager
                // Initialize at the beginning in order to measure the execution
                // time of C2A core initialization.
  C2A_core_init();
  WDT_init();  // Watchdog timer. In SILS, it does not have meaning.

  TMGR_clear();  // This called in C2A_core_init, but should be called again
                 // just before executing the C2A main loop.
#endif
}
//= s2e::components::ObcWithC2a::MainRoutine
void ObcWithC2a_MainRoutine(ObcWithC2a* self, const int time_count) {
  UNUSED(time_count);

#ifdef USE_C2A
  if (is_initialized == false) {
    is_initialized = true;
    Initialize();
  }
  for (int i = 0; i < timing_regulator_; i++) {
    TMGR_count_up_master_clock();  // The update time oc C2A clock should be
                                   // 1msec
    TDSP_execute_pl_as_task_list();
  }
#else
  UNUSED(self->is_initialized);
  UNUSED(self->timing_regulator_);
#endif
}
//= s2e::components::ObcWithC2a::ConnectComPort
int ObcWithC2a_ConnectComPort(ObcWithC2a* self, int port_id, int tx_buffer_size, int rx_buffer_size) {
  if (ObcWithC2a::com_ports_c2a_[port_id] != nullptr) {
    // Port already used
    return -1;
  }
  ObcWithC2a::com_ports_c2a_[port_id] = new UartPort(tx_buffer_size, rx_buffer_size);
  return 0;
}
//= s2e::components::ObcWithC2a::CloseComPort
int ObcWithC2a_CloseComPort(ObcWithC2a* self, int port_id) {
  // Port not used
  if (ObcWithC2a::com_ports_c2a_[port_id] == nullptr) return -1;

  UartPort* port = ObcWithC2a::com_ports_c2a_.at(port_id);
  delete port;
  ObcWithC2a::com_ports_c2a_.erase(port_id);
  return 0;
}
//= s2e::components::ObcWithC2a::SendFromObc
int ObcWithC2a_SendFromObc(ObcWithC2a* self, int port_id, unsigned char* buffer, int offset, int length) {
  return ObcWithC2a::SendFromObc_C2A(port_id, buffer, offset, length);
}
//= s2e::components::ObcWithC2a::ReceivedByCompo
int ObcWithC2a_ReceivedByCompo(ObcWithC2a* self, int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = ObcWithC2a::com_ports_c2a_[port_id];
  if (port == nullptr) return -1;
  return port->ReadTx(buffer, offset, length);
}
//= s2e::components::ObcWithC2a::SendFromCompo
int ObcWithC2a_SendFromCompo(ObcWithC2a* self, int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = ObcWithC2a::com_ports_c2a_[port_id];
  if (port == nullptr) return -1;
  return port->WriteRx(buffer, offset, length);
}
//= s2e::components::ObcWithC2a::ReceivedByObc
int ObcWithC2a_ReceivedByObc(ObcWithC2a* self, int port_id, unsigned char* buffer, int offset, int length) {
  return ObcWithC2a::ReceivedByObc_C2A(port_id, buffer, offset, length);
}
//= s2e::components::ObcWithC2a::SendFromObc_C2A
int ObcWithC2a_SendFromObc_C2A(int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = ObcWithC2a::com_ports_c2a_[port_id];
  if (port == nullptr) return -1;
  return port->WriteTx(buffer, offset, length);
}
//= s2e::components::ObcWithC2a::ReceivedByObc_C2A
int ObcWithC2a_ReceivedByObc_C2A(int port_id, unsigned char* buffer, int offset, int length) {
  UartPort* port = ObcWithC2a::com_ports_c2a_[port_id];
  if (port == nullptr) return -1;
  return port->ReadRx(buffer, offset, length);
}
//= s2e::components::ObcWithC2a::I2cConnectPort
int ObcWithC2a_I2cConnectPort(ObcWithC2a* self, int port_id, const unsigned char i2c_address) {
  if (ObcWithC2a::i2c_com_ports_c2a_[port_id] != nullptr) {
    // Port already used
  } else {
    ObcWithC2a::i2c_com_ports_c2a_[port_id] = new I2cPort();
  }
  ObcWithC2a::i2c_com_ports_c2a_[port_id]->RegisterDevice(i2c_address);

  return 0;
}
//= s2e::components::ObcWithC2a::I2cCloseComPort
int ObcWithC2a_I2cCloseComPort(ObcWithC2a* self, int port_id) {
  // Port not used
  if (ObcWithC2a::i2c_com_ports_c2a_[port_id] == nullptr) return -1;

  I2cPort* port = ObcWithC2a::i2c_com_ports_c2a_.at(port_id);
  delete port;
  ObcWithC2a::i2c_com_ports_c2a_.erase(port_id);
  return 0;
}
//= s2e::components::ObcWithC2a::I2cWriteCommand
int ObcWithC2a_I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = ObcWithC2a::i2c_com_ports_c2a_[port_id];
  if (i2c_port == nullptr) return -1;
  i2c_port->WriteCommand(i2c_address, data, length);
  return 0;
}
//= s2e::components::ObcWithC2a::I2cWriteRegister
int ObcWithC2a_I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = ObcWithC2a::i2c_com_ports_c2a_[port_id];
  if (i2c_port == nullptr) return -1;

  if (length == 1) {
    i2c_port->WriteRegister(i2c_address, data[0]);
  } else {
    for (unsigned char i = 0; i < length - 1; i++) {
      i2c_port->WriteRegister(i2c_address, data[0] + i, data[i + 1]);
    }
  }
  return 0;
}
//= s2e::components::ObcWithC2a::I2cReadRegister
int ObcWithC2a_I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = ObcWithC2a::i2c_com_ports_c2a_[port_id];
  if (i2c_port == nullptr) return -1;
  for (int i = 0; i < length; i++) {
    data[i] = i2c_port->ReadRegister(i2c_address);
  }
  return 0;
}
//= s2e::components::ObcWithC2a::I2cComponentWriteRegister
int ObcWithC2a_I2cComponentWriteRegister(ObcWithC2a* self, int port_id, const unsigned char i2c_address, const unsigned char register_address, const unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = ObcWithC2a::i2c_com_ports_c2a_[port_id];
  if (i2c_port == nullptr) return -1;
  for (unsigned char i = 0; i < length; i++) {
    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
  }
  return 0;
}
//= s2e::components::ObcWithC2a::I2cComponentReadRegister
int ObcWithC2a_I2cComponentReadRegister(ObcWithC2a* self, int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = ObcWithC2a::i2c_com_ports_c2a_[port_id];
  if (i2c_port == nullptr) return -1;
  for (unsigned char i = 0; i < length; i++) {
    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
  }
  return 0;
}
//= s2e::components::ObcWithC2a::I2cComponentReadCommand
int ObcWithC2a_I2cComponentReadCommand(ObcWithC2a* self, int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
  I2cPort* i2c_port = ObcWithC2a::i2c_com_ports_c2a_[port_id];
  if (i2c_port == nullptr) return -1;
  i2c_port->ReadCommand(i2c_address, data, length);
  return 0;
}
//= s2e::components::ObcWithC2a::GpioConnectPort
int ObcWithC2a_GpioConnectPort(ObcWithC2a* self, int port_id) {
  if (ObcWithC2a::gpio_ports_c2a_[port_id] != nullptr) {
    // Port already used
    return -1;
  }
  ObcWithC2a::gpio_ports_c2a_[port_id] = new GpioPort(port_id);
  return 0;
}
//= s2e::components::ObcWithC2a::GpioComponentWrite
int ObcWithC2a_GpioComponentWrite(ObcWithC2a* self, int port_id, const bool is_high) {
  GpioPort* port = ObcWithC2a::gpio_ports_c2a_[port_id];
  if (port == nullptr) return -1;
  return port->DigitalWrite(is_high);
}
//= s2e::components::ObcWithC2a::GpioComponentRead
bool ObcWithC2a_GpioComponentRead(ObcWithC2a* self, int port_id) {
  GpioPort* port = ObcWithC2a::gpio_ports_c2a_[port_id];
  if (port == nullptr) return false;
  return port->DigitalRead();
}
//= s2e::components::ObcWithC2a::GpioWrite_C2A
int ObcWithC2a_GpioWrite_C2A(int port_id, const bool is_high) {
  GpioPort* port = ObcWithC2a::gpio_ports_c2a_[port_id];
  if (port == nullptr) return -1;
  return port->DigitalWrite(is_high);
}
//= s2e::components::ObcWithC2a::GpioRead_C2A
bool ObcWithC2a_GpioRead_C2A(int port_id) {
  GpioPort* port = ObcWithC2a::gpio_ports_c2a_[port_id];
  if (port == nullptr) return false;
  return port->DigitalRead();
}
}
namespace s2e::ref {
//= OBC_C2A_SendFromObc
int _OBC_C2A_SendFromObc(int port_id, unsigned char* buffer, int offset, int length) {
  return s2e::components::ObcWithC2a::SendFromObc_C2A(port_id, buffer, offset, length);
}
//= OBC_C2A_ReceivedByObc
int _OBC_C2A_ReceivedByObc(int port_id, unsigned char* buffer, int offset, int length) {
  return s2e::components::ObcWithC2a::ReceivedByObc_C2A(port_id, buffer, offset, length);
}
//= OBC_C2A_I2cWriteCommand
int _OBC_C2A_I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
  return s2e::components::ObcWithC2a::I2cWriteCommand(port_id, i2c_address, data, length);
}
//= OBC_C2A_I2cWriteRegister
int _OBC_C2A_I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
  return s2e::components::ObcWithC2a::I2cWriteRegister(port_id, i2c_address, data, length);
}
//= OBC_C2A_I2cReadRegister
int _OBC_C2A_I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
  return s2e::components::ObcWithC2a::I2cReadRegister(port_id, i2c_address, data, length);
}
//= OBC_C2A_GpioWrite
int _OBC_C2A_GpioWrite(int port_id, const bool is_high) { return s2e::components::ObcWithC2a::GpioWrite_C2A(port_id, is_high); }
//= OBC_C2A_GpioRead
bool _OBC_C2A_GpioRead(int port_id) { return s2e::components::ObcWithC2a::GpioRead_C2A(port_id); }
}

// ---------------------------------------------------------------- components/real/communication/wings_command_sender_to_c2a.cpp
namespace s2e::components::ref {
//= s2e::components::WingsCommandSenderToC2a::MainRoutine
void WingsCommandSenderToC2a_MainRoutine(WingsCommandSenderToC2a* self, const int time_count) {
  UNUSED(time_count);
  if (self->is_enabled_ == false) return;
  if (self->is_end_of_line_ == true) return;
  if (self->wait_s_ <= 0.0) {
    std::string line = self->wings_operation_file_.GetLatestLine();
    if (line == "EOL") {
      self->is_end_of_line_ = true;
    } else {
      self->ExecuteCommandLine(line);
    }
  } else {
    self->wait_s_ -= self->step_width_s_;
  }
}
//= s2e::components::WingsCommandSenderToC2a::ExecuteCommandLine
void WingsCommandSenderToC2a_ExecuteCommandLine(WingsCommandSenderToC2a* self, const std::string line) {
  // Separate with space
  std::istringstream token_stream(line);
  std::string token;
  std::vector<std::string> tokens;
  while (token_stream >> token) {
    tokens.push_back(token);
  }

  // Handle WINGS commands
  if (tokens[0].find("wait_sec") == 0) {
    // wait process
    self->wait_s_ = std::stod(tokens[1]);
  } else if (tokens[0].find("check_value") == 0) {
    // TODO: Support check_value
    self->wait_s_ = 0;
  } else if (tokens[0].find("let") == 0) {
    // TODO: Support let command
    self->wait_s_ = 0;
  } else {
    self->wait_s_ = 0;
    self->AnalyzeC2aCommand(tokens);
  }

  return;
}
//= s2e::components::WingsCommandSenderToC2a::AnalyzeC2aCommand
void WingsCommandSenderToC2a_AnalyzeC2aCommand(WingsCommandSenderToC2a* self, const std::vector<std::string> tokens) {
#ifdef USE_C2A
  // Recognize command
  size_t first_underscore_position = tokens[0].find('_');
  if (first_underscore_position == std::string::npos) return;
  size_t first_dot_position = tokens[0].find('.');
  if (first_underscore_position == std::string::npos) return;

  std::string target_name = tokens[0].substr(0, first_underscore_position);
  // TODO check target?
  std::string command_type = tokens[0].substr(first_underscore_position + 1, first_dot_position - (first_underscore_position + 1));
  std::string command_name = tokens[0].substr(first_dot_position + 1);

  // Get command code
  s2e::setting_file_reader::C2aCommandInformation cmd_info = c2a_command_database_.GetCommandInformation(command_name);
  if (cmd_info.GetCommandName() == "Error") {
    // TODO: error handling
  }
  CMD_CODE cmd_id = (CMD_CODE)cmd_info.GetCommandId();

  // Get arguments
  std::vector<std::string> arguments;
  for (size_t i = 1; i < tokens.size(); i++) {
    if (tokens[i].find("{") == 0) return;  // let command is not supported now TODO: support let command
    arguments.push_back(tokens[i]);
  }
  // Check number of arguments
  if (arguments.size() != cmd_info.GetNumberOfArgument()) {
    // TODO: error handling
  }

  // Decode arguments
  // Read TI
  uint32_t ti = 0;
  if (command_type == "TL" || command_type == "BL") {
    ti = (uint32_t)std::stoi(arguments[0]);
    arguments.erase(arguments.begin());
  }
  // Read arguments
  uint8_t param[CSP_MAX_LEN];
  uint16_t param_len = 0;
  for (size_t arg_num = 0; arg_num < arguments.size(); arg_num++) {
    size_t len = 0;
    s2e::setting_file_reader::DecodeC2aCommandArgument(cmd_info.GetArgumentType(arg_num), arguments[arg_num], param + param_len, len);
    param_len += (uint16_t)len;
  }

  // Send command
  if (command_type == "RT") {
    CCP_register_rtc(cmd_id, param, param_len);
  } else if (command_type == "TL") {
    CCP_register_tlc(ti, TLCD_ID_FROM_GS, cmd_id, param, param_len);
  } else if (command_type == "BL") {
    // TODO: BL実装したいが、register_blがない？
  } else {
    // Not reach
  }
#else
  UNUSED(tokens);
#endif
}
//= s2e::components::InitWingsCommandSenderToC2a
WingsCommandSenderToC2a _InitWingsCommandSenderToC2a(environment::ClockGenerator* clock_generator, const double compo_update_step_s, const std::string initialize_file) {
  setting_file_reader::IniAccess ini_access(initialize_file);
  std::string section = "WINGS_COMMAND_SENDER_TO_C2A";

  bool is_enabled = ini_access.ReadEnable(section.c_str(), "command_send_enable");

  int prescaler = ini_access.ReadInt(section.c_str(), "prescaler");
  if (prescaler <= 1) prescaler = 1;

  double step_width_s = (double)prescaler * compo_update_step_s;

  std::string c2a_command_data_base_file = ini_access.ReadString(section.c_str(), "c2a_command_database_file");
  std::string wings_operation_file = ini_access.ReadString(section.c_str(), "wings_operation_file");

  return WingsCommandSenderToC2a(prescaler, clock_generator, step_width_s, c2a_command_data_base_file, wings_operation_file, is_enabled);
}
}

// ---------------------------------------------------------------- components/real/communication/wings_command_sender_to_c2a.hpp
namespace s2e::components::ref {
//= s2e::components::WingsCommandSenderToC2a::WingsCommandSenderToC2a
void WingsCommandSenderToC2a_Ctor(WingsCommandSenderToC2a* self, int prescaler, environment::ClockGenerator* clock_generator, const double step_width_s, const std::string command_database_file, const std::string operation_file, const bool is_enabled) {
  Component_Ctor(self, prescaler, clock_generator);
  self->c2a_command_database_ = command_database_file;
  self->wings_operation_file_ = operation_file;
  self->is_enabled_ = is_enabled;
  const_cast<double&>(self->step_width_s_) = step_width_s;
  self->wait_s_ = 0.0;
  self->is_end_of_line_ = false;
}
}

// ---------------------------------------------------------------- setting_file_reader/c2a_command_database.cpp
namespace s2e::setting_file_reader::ref {
//= s2e::setting_file_reader::C2aCommandInformation::C2aCommandInformation(conststd::basic_string<char,std::char_traits<char>,std::allocator<char>>)
void C2aCommandInformation_Ctor(C2aCommandInformation* self, const std::string cmd_db_line) {
  self->command_name_ = "Error";
  self->command_id_ = 0;
  self->number_of_arguments_ = 0;

  if (cmd_db_line.find("*") == 0) return;
  if (cmd_db_line.find(",") != 0) return;

  // CSV
  std::string token;
  std::vector<std::string> tokens;
  std::istringstream token_stream(cmd_db_line);
  while (std::getline(token_stream, token, ',')) {
    tokens.push_back(token);
  }

  // Command name
  self->command_name_ = tokens[1];
  if (self->command_name_.empty()) return;

  // Command ID
  self->command_id_ = std::stoul(tokens[3], nullptr, 0);

  // Arguments
  self->number_of_arguments_ = std::stoul(tokens[4], nullptr, 0);
  for (size_t arg_id = 0; arg_id < self->number_of_arguments_; arg_id++) {
    std::string argment_type_name = tokens[5 + 2 * arg_id];
    self->argument_type_info_.push_back(self->ConvertArgumentType(argment_type_name));
  }
}
//= s2e::setting_file_reader::C2aCommandInformation::GetArgumentType
C2aArgumentType C2aCommandInformation_GetArgumentType(C2aCommandInformation* self, const size_t argument_id) {
  if (argument_id >= self->argument_type_info_.size()) {
    return C2aArgumentType::kError;
  } else {
    return self->argument_type_info_[argument_id];
  }
}
//= s2e::setting_file_reader::C2aCommandInformation::ConvertArgumentType
C2aArgumentType C2aCommandInformation_ConvertArgumentType(C2aCommandInformation* self, const std::string type) {
  if (type == "uint8_t") {
    return C2aArgumentType::kUint8t;
  } else if (type == "uint16_t") {
    return C2aArgumentType::kUint16t;
  } else if (type == "uint32_t") {
    return C2aArgumentType::kUint32t;
  } else if (type == "uint64_t") {
    return C2aArgumentType::kUint64t;
  } else if (type == "int8_t") {
    return C2aArgumentType::kInt8t;
  } else if (type == "int16_t") {
    return C2aArgumentType::kInt16t;
  } else if (type == "int32_t") {
    return C2aArgumentType::kInt32t;
  } else if (type == "int64_t") {
    return C2aArgumentType::kInt64t;
  } else if (type == "float") {
    return C2aArgumentType::kFloat;
  } else if (type == "double") {
    return C2aArgumentType::kDouble;
  } else if (type == "raw") {
    return C2aArgumentType::kRaw;
  } else {
    return C2aArgumentType::kError;
  }
}
//= s2e::setting_file_reader::C2aCommandDatabase::C2aCommandDatabase
void C2aCommandDatabase_Ctor(C2aCommandDatabase* self, const std::string file_path) {
  std::ifstream file(file_path);
  if (!file.is_open()) {
    std::cerr << "C2A Command DB open error." << std::endl;
  }
  std::string line;
  while (std::getline(file, line)) {
    // コマンド追加
    C2aCommandInformation command(line);
    if (command.GetCommandName() == "Error") continue;
    self->command_map_[command.GetCommandName()] = command;
  }
}
//= s2e::setting_file_reader::DecodeC2aCommandArgument
void _DecodeC2aCommandArgument(const C2aArgumentType type, const std::string argument_string, uint8_t* param, size_t& size_param) {
  switch (type) {
    case C2aArgumentType::kUint8t: {
      size_param = 1;
      uint8_t argument = (uint8_t)std::stoul(argument_string);  // TODO: 範囲外処理
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kUint16t: {
      size_param = 2;
      uint16_t argument = (uint16_t)std::stoul(argument_string);  // TODO: 範囲外処理
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kUint32t: {
      size_param = 4;
      uint32_t argument = (uint32_t)std::stoul(argument_string);  // TODO: 範囲外処理
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kUint64t: {
      size_param = 8;
      uint64_t argument = std::stoul(argument_string);
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kInt8t: {
      size_param = 1;
      int8_t argument = (int8_t)std::stoi(argument_string);  // TODO: 範囲外処理
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kInt16t: {
      size_param = 2;
      int16_t argument = (int16_t)std::stoi(argument_string);  // TODO: 範囲外処理
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kInt32t: {
      size_param = 4;
      int32_t argument = std::stoi(argument_string);
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kInt64t: {
      size_param = 8;
      int64_t argument = std::stol(argument_string);
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kFloat: {
      size_param = 4;
      float argument = std::stof(argument_string);
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kDouble: {
      size_param = 8;
      double argument = std::stod(argument_string);
      utilities::endian_memcpy(param, &argument, size_param);
      break;
    }
    case C2aArgumentType::kRaw: {
      // TODO: Rawの実装
      break;
    }
    default:
      break;
  }
}
}

// ---------------------------------------------------------------- setting_file_reader/c2a_command_database.hpp
namespace s2e::setting_file_reader::ref {
//= s2e::setting_file_reader::C2aCommandInformation::C2aCommandInformation()
void C2aCommandInformation_Ctor(C2aCommandInformation* self) {
  self->command_name_ = "Error";
  self->command_id_ = 0;
  self->number_of_arguments_ = 0;
}
//= s2e::setting_file_reader::C2aCommandInformation::GetCommandName
std::string C2aCommandInformation_GetCommandName(C2aCommandInformation* self) { return self->command_name_; }
//= s2e::setting_file_reader::C2aCommandInformation::GetCommandId
size_t C2aCommandInformation_GetCommandId(C2aCommandInformation* self) { return self->command_id_; }
//= s2e::setting_file_reader::C2aCommandInformation::GetNumberOfArgument
size_t C2aCommandInformation_GetNumberOfArgument(C2aCommandInformation* self) { return self->argument_type_info_.size(); }
//= s2e::setting_file_reader::C2aCommandDatabase::GetCommandInformation
C2aCommandInformation C2aCommandDatabase_GetCommandInformation(C2aCommandDatabase* self, const std::string command_name) {
    auto itr = self->command_map_.find(command_name);
    if (itr != self->command_map_.end()) {
      return itr->second;
    } else {
      return C2aCommandInformation();
    }
  }
}

// ---------------------------------------------------------------- setting_file_reader/wings_operation_file.cpp
namespace s2e::setting_file_reader::ref {
//= s2e::setting_file_reader::WingsOperationFile::WingsOperationFile
void WingsOperationFile_Ctor(WingsOperationFile* self, const std::string file_path) {
  self->line_pointer_ = 0;

  // File open
  std::ifstream file(file_path);
  if (!file.is_open()) {
    std::cerr << "WINGS Operation file open error." << std::endl;
  }

  // Read all lines
  std::string line;
  while (std::getline(file, line)) {
    // Remove pose point
    if (!line.empty() && line[0] == '.') {
      line = line.substr(1);
    }
    // Remove space
    if (!line.empty() && line[0] == ' ') {
      line = line.substr(1);
    }
    // Remove comment
    size_t comment_position = line.find('#');
    if (comment_position != std::string::npos) {
      line = line.substr(0, comment_position);
    }
    // add line
    if (line.length() > 2) {
      self->lines_.push_back(line);
    }
  }
}
//= s2e::setting_file_reader::WingsOperationFile::GetLatestLine
std::string WingsOperationFile_GetLatestLine(WingsOperationFile* self) {
  if (self->line_pointer_ >= self->lines_.size()) return "EOL";

  std::string line = self->lines_[self->line_pointer_];
  self->line_pointer_++;

  return line;
}
}

// ---------------------------------------------------------------- utilities/slip.cpp
namespace s2e::utilities::ref {
static uint8_t kSlipFend_ = 0xc0;
static uint8_t kSlipFesc_ = 0xdb;
static uint8_t kSlipTfend_ = 0xdc;
static uint8_t kSlipTfesc_ = 0xdd;
//= s2e::utilities::decode_slip
std::vector<uint8_t> _decode_slip(const std::vector<uint8_t> in) {
  std::vector<uint8_t> out = in;

  // Footer Search
  auto fend_itr = std::find(out.begin(), out.end(), kSlipFend_);
  out.erase(fend_itr, out.end());  // Delete

  // FESC search
  auto fesc_itr = out.begin();
  while (1) {
    fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
    if (fesc_itr == out.end() || fesc_itr + 1 == out.end()) break;
    // convert
    if (*(fesc_itr + 1) == kSlipTfend_) {
      *(fesc_itr + 1) = kSlipFend_;
    } else if (*(fesc_itr + 1) == kSlipTfesc_) {
      *(fesc_itr + 1) = kSlipFesc_;
    } else {
      // TODO error handling
    }
    fesc_itr = out.erase(fesc_itr);
    ++fesc_itr;
  }

  return out;
}
//= s2e::utilities::decode_slip_with_header
std::vector<uint8_t> _decode_slip_with_header(const std::vector<uint8_t> in) {
  std::vector<uint8_t> in_without_header = in;
  if (in_without_header.empty()) return in_without_header;
  in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
  return decode_slip(in_without_header);
}
//= s2e::utilities::encode_slip
std::vector<uint8_t> _encode_slip(const std::vector<uint8_t> in) {
  std::vector<uint8_t> out = in;

  // FESC search
  auto fesc_itr = out.begin();
  while (1) {
    fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
    if (fesc_itr == out.end()) break;
    // convert
    fesc_itr = out.insert(fesc_itr + 1, kSlipTfesc_);
  }

  // FEND search
  auto fend_itr = out.begin();
  while (1) {
    fend_itr = std::find(fend_itr, out.end(), kSlipFend_);
    if (fend_itr == out.end()) break;
    // convert
    *fend_itr = kSlipFesc_;
    fend_itr = out.insert(fend_itr + 1, kSlipTfend_);
  }

  out.push_back(kSlipFend_);
  return out;
}
//= s2e::utilities::encode_slip_with_header
std::vector<uint8_t> _encode_slip_with_header(const std::vector<uint8_t> in) {
  std::vector<uint8_t> out = encode_slip(in);
  out.insert(out.begin(), kSlipFend_);
  return out;
}
}

// ---------------------------------------------------------------- utilities/ring_buffer.cpp
namespace s2e::utilities::ref {
//= s2e::utilities::RingBuffer::RingBuffer
void RingBuffer_Ctor(RingBuffer* self, int buffer_size) {
  self->buffer_size_ = buffer_size;

  self->buffer_ = new byte[buffer_size];
  self->write_pointer_ = 0;
  self->read_pointer_ = 0;
}
//= s2e::utilities::RingBuffer::Write
int RingBuffer_Write(RingBuffer* self, const byte* buffer, const unsigned int offset, const unsigned int data_length) {
  unsigned int write_count = 0;
  while (write_count != data_length) {
    unsigned int write_len = std::min(self->buffer_size_ - self->write_pointer_, data_length - write_count);
    memcpy(&self->buffer_[self->write_pointer_], &buffer[offset + write_count], write_len);
    self->write_pointer_ = (self->write_pointer_ + write_len == self->buffer_size_) ? 0 : self->write_pointer_ + write_len;
    write_count += write_len;
  }

  return write_count;
}
//= s2e::utilities::RingBuffer::Read
int RingBuffer_Read(RingBuffer* self, byte* buffer, const unsigned int offset, const unsigned int data_length) {
  unsigned int read_count = 0;
  // There are four behaviors depending on whether the RP overtakes the WP, or
  // whether all of the RP to the WP are requested by data_length.
  while (read_count != data_length && self->write_pointer_ != self->read_pointer_) {
    unsigned int read_len = (self->write_pointer_ > self->read_pointer_) ? std::min(self->write_pointer_ - self->read_pointer_, data_length - read_count)
                                                             : std::min(self->buffer_size_ - self->read_pointer_, data_length - read_count);
    memcpy(&buffer[offset + read_count], &self->buffer_[self->read_pointer_], read_len);
    self->read_pointer_ = (self->read_pointer_ + read_len == self->buffer_size_) ? 0 : self->read_pointer_ + read_len;
    read_count += read_len;
  }

  return read_count;
}
}

// ---------------------------------------------------------------- utilities/endian.cpp
namespace s2e::utilities::ref {
//= s2e::utilities::endian_memcpy
void * _endian_memcpy(void *dst, const void *src, size_t size) {
#ifdef IS_LITTLE_ENDIAN
  uint8_t *src_ = (uint8_t *)src;
  uint8_t *dst_ = (uint8_t *)dst;
  size_t i;

  for (i = 0; i < size; i++) {
    *(dst_ + (size - 1 - i)) = *(src_ + i);
  }

  return dst;
#else
  return memcpy(dst, src, size);
#endif  // IS_LITTLE_ENDIAN
}
}

// ---------------------------------------------------------------- utilities/quantization.cpp
namespace s2e::utilities::ref {
//= s2e::utilities::quantization
double _quantization(const double continuous_number, const double resolution) {
  int bin_num = (int)((double)continuous_number / resolution);
  return (double)bin_num * resolution;
}
//= s2e::utilities::quantization_float
float _quantization_float(const double continuous_number, const double resolution) { return (float)quantization(continuous_number, resolution); }
}

// ---------------------------------------------------------------- components/examples/example_change_structure.cpp
namespace s2e::components::ref {
//= s2e::components::ExampleChangeStructure::ExampleChangeStructure
void ExampleChangeStructure_Ctor(ExampleChangeStructure* self, environment::ClockGenerator* clock_generator, spacecraft::Structure* structure) {
  Component_Ctor(self, 1, clock_generator);
  self->structure_ = structure;
}
//= s2e::components::ExampleChangeStructure::MainRoutine
void ExampleChangeStructure_MainRoutine(ExampleChangeStructure* self, const int time_count) {
  if (time_count > 1000) {
    // Mass
    self->structure_->GetToSetKinematicsParameters().SetMass_kg(100.0);

    // Center of gravity
    math::Vector<3> cg(0.0);
    cg[0] = 0.01;
    cg[1] = -0.01;
    cg[2] = 0.02;
    self->structure_->GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(cg);

    // RMM
    math::Vector<3> rmm(0.0);
    rmm[0] = 0.1;
    rmm[1] = -0.1;
    rmm[2] = 0.2;
    self->structure_->GetToSetResidualMagneticMoment().SetRmmConstant_b_Am2(rmm);

    // Surface
    self->structure_->GetToSetSurfaces()[0].SetArea_m2(0.5);

    // Inertia Tensor
    math::Matrix<3, 3> inertia_tensor_b_kgm2(0.0);
    inertia_tensor_b_kgm2[0][0] = 0.2;
    inertia_tensor_b_kgm2[1][1] = 0.2;
    inertia_tensor_b_kgm2[2][2] = 0.2;
    self->structure_->GetToSetKinematicsParameters().SetInertiaTensor_b_kgm2(inertia_tensor_b_kgm2);
  }
}
}

// ---------------------------------------------------------------- components/examples/example_i2c_controller_for_hils.cpp
namespace s2e::components::ref {
//= s2e::components::ExampleI2cControllerForHils::ExampleI2cControllerForHils
void ExampleI2cControllerForHils_Ctor(ExampleI2cControllerForHils* self, const int prescaler, environment::ClockGenerator* clock_generator, const unsigned int hils_port_id, const unsigned int baud_rate, const unsigned int tx_buffer_size, const unsigned int rx_buffer_size, simulation::HilsPortManager* hils_port_manager) {
  Component_Ctor(self, prescaler, clock_generator);
  I2cController_Ctor(self, hils_port_id, baud_rate, tx_buffer_size, rx_buffer_size, hils_port_manager);
}
//= s2e::components::ExampleI2cControllerForHils::MainRoutine
void ExampleI2cControllerForHils_MainRoutine(ExampleI2cControllerForHils* self, const int time_count) {
  UNUSED(time_count);

  self->RequestTlm();
  self->Receive();
  return;
}
//= s2e::components::ExampleI2cControllerForHils::RequestTlm
void ExampleI2cControllerForHils_RequestTlm(ExampleI2cControllerForHils* self) {
  const unsigned char kReqTlmCmdSize = 5;
  unsigned char req_tlm_cmd[kReqTlmCmdSize];
  req_tlm_cmd[0] = ExampleI2cControllerForHils::kCmdHeader_;
  req_tlm_cmd[1] = ExampleI2cControllerForHils::kWriteCmd_;
  req_tlm_cmd[2] = 0x01;  // bytes to write
  req_tlm_cmd[3] = 0x00;  // register address
  req_tlm_cmd[kReqTlmCmdSize - 1] = ExampleI2cControllerForHils::kCmdFooter_;
  self->tx_buffer_.assign(std::begin(req_tlm_cmd), std::end(req_tlm_cmd));
  self->SendCommand(kReqTlmCmdSize);
  std::cout << "I2C Controller requests Telemetry" << std::endl;
  return;
}
//= s2e::components::ExampleI2cControllerForHils::Receive
void ExampleI2cControllerForHils_Receive(ExampleI2cControllerForHils* self) {
  const unsigned char kTlmSize = 5;
  const unsigned char kReceiveCmdSize = 4;
  unsigned char receive_cmd[kReceiveCmdSize];
  receive_cmd[0] = ExampleI2cControllerForHils::kCmdHeader_;
  receive_cmd[1] = ExampleI2cControllerForHils::kReadCmd_;
  receive_cmd[2] = kTlmSize;  // bytes to read
  receive_cmd[kReceiveCmdSize - 1] = ExampleI2cControllerForHils::kCmdFooter_;
  self->tx_buffer_.assign(std::begin(receive_cmd), std::end(receive_cmd));
  self->SendCommand(kReceiveCmdSize);

  self->rx_buffer_.resize(kTlmSize);
  int ret = self->ReceiveTelemetry(kTlmSize);
  if (ret <= 0) return;
  std::cout << "I2C Controller received: ";
  for (int i = 0; i < ret; i++) {
    std::cout << self->rx_buffer_[i];
  }
  std::cout << std::endl;
  return;
}
}

// ---------------------------------------------------------------- components/examples/example_i2c_target_for_hils.cpp
namespace s2e::components::ref {
//= s2e::components::ExampleI2cTargetForHils::ExampleI2cTargetForHils
void ExampleI2cTargetForHils_Ctor(ExampleI2cTargetForHils* self, const int prescaler, environment::ClockGenerator* clock_generator, const int sils_port_id, unsigned char i2c_address, OnBoardComputer* obc, const unsigned int hils_port_id, simulation::HilsPortManager* hils_port_manager) {
  Component_Ctor(self, prescaler, clock_generator);
  I2cTargetCommunicationWithObc_Ctor3(self, sils_port_id, hils_port_id, i2c_address, obc, hils_port_manager);
  self->tlm_counter_ = 0;
}
//= s2e::components::ExampleI2cTargetForHils::MainRoutine
void ExampleI2cTargetForHils_MainRoutine(ExampleI2cTargetForHils* self, const int time_count) {
  UNUSED(time_count);

  // update telemetry data
  const unsigned char kTlmSize = 5;
  unsigned char tlm[kTlmSize] = {0};
  for (unsigned char i = 0; i < kTlmSize; i++) {
    tlm[i] = 'A' + self->tlm_counter_ + i;
  }
  self->WriteRegister(0, tlm, kTlmSize);
  self->tlm_counter_++;
  if (self->tlm_counter_ > self->kNumAlphabet - kTlmSize) {
    self->tlm_counter_ = 0;  // ABCDE, ..., VWXYZ, ABCDE, ...
  }

  self->ReceiveCommand();
  int additional_frame_num = self->kStoredFrameSize - self->GetStoredFrameCounter();
  if (additional_frame_num <= 0) return;

  // store telemetry in converter up to kStoredFrameSize
  for (int i = 0; i < additional_frame_num; i++) {
    self->SendTelemetry(kTlmSize);
    std::cout << "I2C Target sends to converter: " << tlm[0] << tlm[1] << tlm[2] << tlm[3] << tlm[4] << std::endl;
  }

  return;
}
}

// ---------------------------------------------------------------- components/examples/example_serial_communication_for_hils.cpp
namespace s2e::components::ref {
//= s2e::components::ExampleSerialCommunicationForHils::ExampleSerialCommunicationForHils skip=memory_,tx_
void ExampleSerialCommunicationForHils_Ctor(ExampleSerialCommunicationForHils* self, environment::ClockGenerator* clock_generator, const int sils_port_id, OnBoardComputer* obc, const unsigned int hils_port_id, const unsigned int baud_rate, simulation::HilsPortManager* hils_port_manager, const int mode_id) {
  Component_Ctor(self, 300, clock_generator);
  UartCommunicationWithObc_Ctor5(self, sils_port_id, obc, hils_port_id, baud_rate, hils_port_manager);
  const_cast<int&>(self->mode_id_) = mode_id;
  self->counter_ = 0;
}
//= s2e::components::ExampleSerialCommunicationForHils::ParseCommand
int ExampleSerialCommunicationForHils_ParseCommand(ExampleSerialCommunicationForHils* self, const int command_size) {
  UNUSED(command_size);

  if (self->mode_id_ == 1) {
    for (int i = 0; i < ExampleSerialCommunicationForHils::kMemorySize; i++) {
      self->memory_[i] = (unsigned char)self->rx_buffer_[i];
    }
    self->memory_[ExampleSerialCommunicationForHils::kMemorySize - 1] = '\0';
  } else if (self->mode_id_ == 0)  // data returned from the responder component to the sender component
  {
    // the first row will overwrite the progress output in SampleCase.cpp
    std::cout << std::endl << self->rx_buffer_[0] << self->rx_buffer_[1] << self->rx_buffer_[2] << std::endl;
  }
  return 0;
}
//= s2e::components::ExampleSerialCommunicationForHils::GenerateTelemetry
int ExampleSerialCommunicationForHils_GenerateTelemetry(ExampleSerialCommunicationForHils* self) {
  if (self->mode_id_ == 0)  // The sender component sends ABC, BCD, CDE ...
  {
    for (int i = 0; i < ExampleSerialCommunicationForHils::kMemorySize; i++) {
      self->tx_[i] = (char)('A' + self->counter_ + i);
    }
    self->counter_++;
    self->tx_[ExampleSerialCommunicationForHils::kMemorySize - 1] = '\0';
    if (self->counter_ > self->kNumAlphabet - (ExampleSerialCommunicationForHils::kMemorySize - 1)) {
      self->counter_ = 0;
    }
    self->tx_buffer_.assign(std::begin(self->tx_), std::end(self->tx_));
    return sizeof(self->tx_);
  } else if (self->mode_id_ == 1)  // The responder component sends back the received message.
  {
    for (int i = 0; i < ExampleSerialCommunicationForHils::kMemorySize; i++) {
      self->tx_[i] = (unsigned char)self->memory_[i];
    }
    self->tx_buffer_.assign(std::begin(self->tx_), std::end(self->tx_));
    return sizeof(self->tx_);
  }
  return 0;
}
//= s2e::components::ExampleSerialCommunicationForHils::MainRoutine
void ExampleSerialCommunicationForHils_MainRoutine(ExampleSerialCommunicationForHils* self, const int time_count) {
  UNUSED(time_count);

  self->ReceiveCommand(0, ExampleSerialCommunicationForHils::kMemorySize);
  self->SendTelemetry(0);
}
}

// ---------------------------------------------------------------- components/examples/example_serial_communication_with_obc.cpp
namespace s2e::components::ref {
//= s2e::components::ExampleSerialCommunicationWithObc::ExampleSerialCommunicationWithObc(s2e::environment::ClockGenerator*,int,s2e::components::OnBoardComputer*)
void ExampleSerialCommunicationWithObc_Ctor(ExampleSerialCommunicationWithObc* self, environment::ClockGenerator* clock_generator, int port_id, OnBoardComputer* obc) {
  Component_Ctor(self, 1000, clock_generator);
  UartCommunicationWithObc_Ctor(self, port_id, obc);

  self->Initialize();
}
//= s2e::components::ExampleSerialCommunicationWithObc::ExampleSerialCommunicationWithObc(s2e::environment::ClockGenerator*,int,int,s2e::components::OnBoardComputer*)
void ExampleSerialCommunicationWithObc_Ctor2(ExampleSerialCommunicationWithObc* self, environment::ClockGenerator* clock_generator, int port_id, int prescaler, OnBoardComputer* obc) {
  Component_Ctor(self, prescaler, clock_generator);
  UartCommunicationWithObc_Ctor(self, port_id, obc);

  self->Initialize();
}
//= s2e::components::ExampleSerialCommunicationWithObc::Initialize
int ExampleSerialCommunicationWithObc_Initialize(ExampleSerialCommunicationWithObc* self) {
  for (int i = 0; i < ExampleSerialCommunicationWithObc::kMaxMemoryLength; i++) {
    self->memory_.push_back(0);
  }
  return 0;
}
//= s2e::components::ExampleSerialCommunicationWithObc::ParseCommand
int ExampleSerialCommunicationWithObc_ParseCommand(ExampleSerialCommunicationWithObc* self, const int command_size) {
  if (command_size < 4) {
    return -1;
  }
  if (self->rx_buffer_[0] != 'S' || self->rx_buffer_[1] != 'E' || self->rx_buffer_[2] != 'T') {
    return -1;
  }
  self->memory_.pop_back();
  self->memory_.insert(self->memory_.begin(), self->rx_buffer_[3]);
  self->memory_[ExampleSerialCommunicationWithObc::kMaxMemoryLength - 1] = '\n';
  return 0;
}
//= s2e::components::ExampleSerialCommunicationWithObc::GenerateTelemetry
int ExampleSerialCommunicationWithObc_GenerateTelemetry(ExampleSerialCommunicationWithObc* self) {
  for (int i = 0; i < ExampleSerialCommunicationWithObc::kMaxMemoryLength; i++) {
    self->tx_buffer_[i] = (unsigned char)self->memory_[i];
  }
  self->tx_buffer_.assign(std::begin(self->tx_buffer_), std::end(self->tx_buffer_));
  return sizeof(self->tx_buffer_);
}
//= s2e::components::ExampleSerialCommunicationWithObc::MainRoutine
void ExampleSerialCommunicationWithObc_MainRoutine(ExampleSerialCommunicationWithObc* self, const int time_count) {
  UNUSED(time_count);
  self->ReceiveCommand(0, 5);
  self->SendTelemetry(0);
}
//= s2e::components::ExampleSerialCommunicationWithObc::GpioStateChanged
void ExampleSerialCommunicationWithObc_GpioStateChanged(ExampleSerialCommunicationWithObc* self, const int port_id, const bool is_positive_edge) {
  printf("interrupted. port id = %d, is positive edge = %d./n", port_id, is_positive_edge);
}
//= s2e::components::UartCommunicationWithObc::IsConnected
bool Uart_IsConnected(UartCommunicationWithObc* self) { return self->is_connected_; }
//= s2e::components::I2cTargetCommunicationWithObc::GetI2cAddress
unsigned char I2c_Address(I2cTargetCommunicationWithObc* self) { return self->i2c_address_; }
}
